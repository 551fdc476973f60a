/* C01: harbol_map against an insertion-ordered dictionary model. */
#include <time.h>
#include "vf.h"
#include "map/map.h"
#include "twins.h"
#define NK 6000
#define BIG 70000
struct ent { uint8_t *k; size_t kn; uint8_t *v; size_t vn; };
static struct ent *m; static size_t n; static uint8_t k[BIG+8], v[BIG+8], kk[BIG+8];
static bool large;
static void m_key(struct ent *e, uint8_t const *b, size_t l) { e->k = vf_xmalloc(l+1); memcpy(e->k,b,l); e->kn=l; e->v=NULL; }
static void m_val(struct ent *e, uint8_t const *b, size_t l) { vf_xfree(e->v); e->v = vf_xmalloc(l+1); memcpy(e->v,b,l); e->vn=l; }
static void m_clear(void) { for( size_t i=0; i<n; i++ ) { vf_xfree(m[i].k); vf_xfree(m[i].v); } n=0; }
static size_t alpha, klenmax; static unsigned keymode;
static size_t gen_key(uint8_t *k) {
	size_t kn;
	switch( keymode ) {
	case 0: kn = 1; k[0] = (uint8_t)vf_below(alpha); return kn;
	case 1: kn = vf_below(klenmax+1); for( size_t i=0; i<kn; i++ ) k[i] = (uint8_t)vf_below(2); return kn;               /* prefixes, NULs, empty */
	case 2: { char b[24]; kn = (size_t)sprintf(b, "key%zu", vf_below(alpha)); memcpy(k,b,kn); return kn; }
	case 3: { uint64_t x = vf_below(alpha) << (8*vf_below(3)); memcpy(k,&x,8); return 8; }
	case 5: /* long keys differing in few places */ kn = vf_size(vf_chance(1,4)? BIG : 700); memset(k, 'a'+(int)vf_below(3), kn); if( kn ) { k[kn-1] = (uint8_t)vf_below(4); k[vf_below(kn)] = (uint8_t)vf_below(4); } return kn;
	case 6: /* one hash */ kn = vf_twin_key(k, vf_below(2), vf_below(27)); if( vf_chance(1,8) ) k[kn++]='!'; return kn;
	default: kn = vf_range(1,20); memset(k, 'a', kn); k[vf_below(kn)] = (uint8_t)('a'+vf_below(3)); return kn;
	}
}
static size_t gen_val(uint8_t *v) { if( n && vf_chance(1,6) ) { size_t i=vf_below(n), s=m[i].vn; memcpy(v,m[i].v,s); if( s && vf_chance(2,3) ) v[s-1]^=1; return s; } size_t s = vf_chance(1,10)? 0 : large? vf_size(vf_chance(1,4)? BIG:700) : vf_range(1,40); if( vf_chance(1,3) ) { memset(v, (int)vf_below(3), s); } else vf_bytes(v, s); return s; }
static size_t find(uint8_t const *k, size_t kn) { for( size_t i=0; i<n; i++ ) if( m[i].kn==kn && !memcmp(m[i].k,k,kn) ) return i; return SIZE_MAX; }
static void check_entry(struct HarbolMap *p, size_t i, char const *after) {
	struct ent *e = &m[i];
	size_t x = harbol_map_get_entry_index(p, e->k, e->kn);
	CHECK(x==i, "map-lookup", "after %s: key %s (entry %zu of %zu) looked up as %zd", after, vf_quote(e->k,e->kn), i, n, (ssize_t)x);
	uint8_t *v = harbol_map_key_get(p, e->k, e->kn);
	CHECK(v && !memcmp(v, e->v, e->vn), "map-value", "after %s: wrong value for key %s", after, vf_quote(e->k,e->kn));
}
static void verify(struct HarbolMap *p, char const *after, bool full) {
	CHECK(p->len==n, "map-count", "after %s: %zu entries, expected %zu", after, p->len, n);
	CHECK(p->len<=p->cap, "map-count", "after %s: %zu entries in capacity %zu", after, p->len, p->cap);
	for( size_t i=0; i<n; i++ ) {
		CHECK(p->keylens[i]==m[i].kn && !memcmp(p->keys[i], m[i].k, m[i].kn), "map-order", "after %s: entry %zu holds the wrong key", after, i);
		CHECK(p->datalens[i]==m[i].vn, "map-value-length", "after %s: entry %zu records value length %zu, expected %zu", after, i, p->datalens[i], m[i].vn);
		uint8_t *v = harbol_map_idx_get(p, i);
		CHECK(v && !memcmp(v, m[i].v, m[i].vn), "map-positional", "after %s: entry %zu holds the wrong value", after, i);
		if( full ) check_entry(p, i, after);
	}
	CHECK(harbol_map_idx_get(p, n)==NULL && harbol_map_idx_get(p, SIZE_MAX)==NULL, "map-positional", "after %s: position beyond the end yields a value", after);
	size_t kn;
	for( int t=0; t<3; t++ ) { kn = gen_key(kk); uint8_t *kx = vf_exact_buf(kk,kn); size_t w = find(kk,kn);
		CHECK(harbol_map_has_key(p,kx,kn)==(w!=SIZE_MAX), "map-membership", "after %s: membership of key %s is wrong", after, vf_quote(kk,kn));
		CHECK((harbol_map_key_get(p,kx,kn)!=NULL)==(w!=SIZE_MAX), "map-membership", "after %s: lookup of key %s is wrong", after, vf_quote(kk,kn));
		if( w==SIZE_MAX ) COUNT("absent-lookup"); else { COUNT("present-lookup"); check_entry(p,w,after); }
		vf_xfree(kx); }
}
static void removed(size_t i) { vf_xfree(m[i].k); vf_xfree(m[i].v); memmove(&m[i], &m[i+1], (n-i-1)*sizeof *m); n--; }
static void history(uint64_t idx) {
	if( !m ) m = vf_xmalloc(sizeof *m * NK);
	n=0; keymode = large? 5 : vf_chance(1,8)? 6 : (unsigned)vf_below(5); alpha = vf_chance(1,2)? vf_range(1,12) : vf_range(1,250); klenmax = vf_range(1,8);
	size_t init = vf_chance(1,3)? (size_t)1<<vf_below(6) : vf_below(40); bool res=false;
	vf_mix(init); vf_mix(keymode);
	struct HarbolMap st = {0}, *p=&st; unsigned kind=(unsigned)vf_below(3);
	if( kind==0 ) { p = harbol_map_new(init); CHECK(p!=NULL,"map-new","constructor failed"); } else if( kind==1 ) { st = harbol_map_make(init,&res); CHECK(res,"map-new","constructor failed"); } else CHECK(harbol_map_init(p,init),"map-new","init failed");
	OP("new capacity=%zu keymode=%u alpha=%zu", init, keymode, alpha); if( init & (init-1) ) COUNT("capacity-not-power-of-2"); if( !init ) COUNT("capacity-zero");
	verify(p,"construction",true);
	size_t nops = vf_range(1, vf_chance(1,6)? 300 : 60); size_t kn, vn; unsigned rmbias=(unsigned)vf_below(3);
	for( size_t o=0; o<nops && n<NK-2; o++ ) {
		unsigned op = (unsigned)vf_below(16 + 2*rmbias); vf_mix(op); char const *nm;
		switch( op ) {
		case 0: case 1: case 2: case 3: case 4: { kn=gen_key(k); vn=gen_val(v); vf_mix_bytes(k,kn); uint8_t *kx=vf_exact_buf(k,kn), *vx=vf_exact_buf(v,vn); size_t w=find(k,kn); size_t cap=p->cap;
			bool r = harbol_map_insert(p,kx,kn,vx,vn); OP("insert %s (%zu value bytes) -> %d", vf_quote(k,kn), vn, r); nm="insert";
			memset(kx,0xA5,kn); memset(vx,0xA5,vn); vf_xfree(kx); vf_xfree(vx);
			CHECK(r==(w==SIZE_MAX), "map-insert", "insert of %s key returned %d", w==SIZE_MAX?"new":"existing", r);
			if( r ) { m_key(&m[n],k,kn); m_val(&m[n],v,vn); n++; if( kn>255 ) COUNT("long-key"); if( keymode==6 && n>1 && m[n-2].kn==kn && array_hash(m[n-2].k,kn,p->seed)==array_hash(m[n-1].k,kn,p->seed) ) COUNT("one-hash-two-keys"); if( vn>255 ) COUNT("long-value"); COUNT("inserted"); if( p->cap!=cap ) COUNT("grown"); if( !kn ) COUNT("empty-key"); if( !vn ) COUNT("empty-value"); } else COUNT("duplicate-refused"); } break;
		case 5: case 6: { kn=gen_key(k); vn=gen_val(v); vf_mix_bytes(k,kn); uint8_t *kx=vf_exact_buf(k,kn), *vx=vf_exact_buf(v,vn); size_t w=find(k,kn);
			/* keys and values may be the map's own */ uint8_t *ks=kx, *vs=vx; if( w!=SIZE_MAX && vf_chance(1,3) ) { ks=p->keys[w]; COUNT("own-key"); } if( n && vf_chance(1,6) ) { size_t j=vf_below(n); if( m[j].vn ) { size_t a=vf_below(m[j].vn); vs=(uint8_t*)harbol_map_idx_get(p,j)+a; vn=m[j].vn-a; memmove(v,m[j].v+a,vn); COUNT("own-value"); } }
			bool r = harbol_map_key_set(p,ks,kn,vs,vn); OP("key_set %s (%zu bytes) -> %d", vf_quote(k,kn), vn, r); nm="key_set"; if( vs==vx ) memset(vx,0xA5,vn); vf_xfree(kx); vf_xfree(vx);
			CHECK(r,"map-set","set by key refused"); if( w==SIZE_MAX ) { w=n++; m_key(&m[w],k,kn); COUNT("inserted"); } else { COUNT("overwritten"); if( m[w].vn!=vn ) COUNT("overwritten-other-size"); } m_val(&m[w],v,vn); } break;
		case 7: { size_t i = vf_chance(1,6)? n+vf_below(3) : vf_below(n?n:1); vn=gen_val(v); uint8_t *vx=vf_exact_buf(v,vn), *vs=vx; if( n && vf_chance(1,6) ) { size_t j=vf_chance(1,2) && i<n? i : vf_below(n); if( m[j].vn ) { size_t a=vf_below(m[j].vn); vs=(uint8_t*)harbol_map_idx_get(p,j)+a; vn=m[j].vn-a; memmove(v,m[j].v+a,vn); COUNT("own-value"); } } bool r=harbol_map_idx_set(p,i,vs,vn); OP("idx_set %zu (%zu bytes) -> %d",i,vn,r); nm="idx_set"; vf_xfree(vx);
			CHECK(r==(i<n),"map-set","set at position %zu of %zu returned %d",i,n,r); if( r ) m_val(&m[i],v,vn); } break;
		case 8: case 9: case 16: case 17: case 18: { if( n && vf_chance(3,4) ) { size_t i=vf_below(n); kn=m[i].kn; memcpy(k,m[i].k,kn); } else kn=gen_key(k); vf_mix_bytes(k,kn); uint8_t *kx=vf_exact_buf(k,kn); size_t w=find(k,kn);
			if( w!=SIZE_MAX && vf_chance(1,3) ) COUNT("removed-by-own-key"); bool r=harbol_map_key_rm(p, w!=SIZE_MAX && vf_chance(1,3)? p->keys[w] : kx, kn); OP("key_rm %s -> %d",vf_quote(k,kn),r); nm="key_rm"; vf_xfree(kx);
			CHECK(r==(w!=SIZE_MAX),"map-remove","removing %s key returned %d",w==SIZE_MAX?"an absent":"a present",r); if( r ) { removed(w); COUNT("removed"); } else COUNT("remove-refused"); } break;
		case 10: case 11: case 19: { size_t i = vf_chance(1,6)? n+vf_below(3) : vf_below(n?n:1); vf_mix(i); bool r=harbol_map_idx_rm(p,i); OP("idx_rm %zu -> %d",i,r); nm="idx_rm";
			CHECK(r==(i<n),"map-remove","removing position %zu of %zu returned %d",i,n,r); if( r ) { removed(i); COUNT("removed"); } } break;
		case 12: { size_t sz = vf_chance(1,4)? vf_below(n+1) : vf_below(80); vf_mix(sz); size_t cap=p->cap; bool r=harbol_map_rehash(p,sz); OP("rehash %zu -> %d",sz,r); nm="rehash";
			if( r ) { CHECK(p->cap>=n,"map-rehash","capacity %zu for %zu entries",p->cap,n); COUNT("rehashed"); if( sz<cap ) COUNT("rehashed-smaller"); }
			else { CHECK(sz<n || n==0,"map-rehash","rehash to %zu refused with %zu entries",sz,n); COUNT("rehash-refused"); } } break;
		case 13: { if( n && vf_chance(2,3) ) { size_t i=vf_below(n); vn=m[i].vn; memcpy(v,m[i].v,vn); if( vn && vf_chance(1,3) ) { v[vf_chance(1,2)? vn-1 : vf_below(vn)]^=1; COUNT("value-near-miss"); } } else vn=gen_val(v); uint8_t *vx=vf_exact_buf(v,vn); size_t w=SIZE_MAX; for( size_t i=0; i<n; i++ ) if( m[i].vn==vn && !memcmp(m[i].v,v,vn) ) { w=i; break; }
			size_t x=harbol_map_idx_val(p,vx,vn), kl=777; void *kp=harbol_map_key_val(p,vx,vn,&kl); OP("find value -> %zd",(ssize_t)x); nm="find by value"; vf_xfree(vx);
			CHECK(x==w,"map-find-value","value found at %zd, expected %zd",(ssize_t)x,(ssize_t)w); CHECK((kp!=NULL)==(w!=SIZE_MAX) && (w==SIZE_MAX || (kl==m[w].kn && !memcmp(kp,m[w].k,kl))),"map-find-value","key of value wrong"); if( w!=SIZE_MAX ) COUNT("value-found"); } break;
		case 14: if( vf_chance(1,12) ) { harbol_map_clear(p); m_clear(); OP("clear"); nm="clear"; COUNT("cleared"); if( vf_chance(1,2) ) { CHECK(harbol_map_init(p,vf_below(9)),"map-new","init after clear"); OP("init"); } } else nm="nothing"; break;
		default: { /* remove a run from one end, or reinsert */
			size_t c=vf_below(5); for( size_t j=0; j<c && n; j++ ) { size_t i = op==15? 0 : n-1; CHECK(harbol_map_idx_rm(p,i),"map-remove","removing position %zu of %zu refused",i,n); removed(i); } OP("drain %zu",c); nm="drain"; vf_mix(c); } break;
		}
		verify(p,nm, (n<24 && !large) || vf_chance(1,8));
	}
	verify(p,"history",true);
	if( kind==0 ) { harbol_map_free(&p); CHECK(p==NULL,"map-free","pointer not reset"); harbol_map_free(&p); } else { harbol_map_clear(p); m_clear(); verify(p,"clear",true); harbol_map_clear(p); }
	m_clear();
	vf_leak_check("map-leak");
	if( nops<3 ) vf_trivial();
}
static void history_large(uint64_t idx) { large=true; history(idx); large=false; }
/* thousands of entries, added and removed in bulk */
static size_t num_key(uint8_t *b, unsigned kind, size_t x) { switch( kind ) { case 0: { uint32_t y=(uint32_t)x; memcpy(b,&y,4); return 4; } case 1: return (size_t)sprintf((char*)b,"entry-%zu",x); case 2: { uint64_t y=(uint64_t)x<<32; memcpy(b,&y,8); return 8; } default: memset(b,0,x%1024); return x; } }
static void many(uint64_t idx) {
	if( !m ) m = vf_xmalloc(sizeof *m * NK);
	n=0; unsigned kind=(unsigned)vf_below(4); size_t lim = kind==3? 1000 : NK-10, next=0; struct HarbolMap p={0}; CHECK(harbol_map_init(&p,vf_below(70)),"map-new","init failed"); OP("many kind=%u",kind); vf_mix(kind); keymode=2; alpha=20; klenmax=4;
	size_t rounds=vf_range(2,6);
	for( size_t r=0; r<rounds; r++ ) {
		size_t add=vf_range(1, vf_chance(1,3)? 3000:600); if( n+add>lim || next+add>(kind==3? 1000:SIZE_MAX) ) break;
		for( size_t i=0; i<add; i++ ) { size_t kn=num_key(k,kind,next); uint64_t val=next*7+1; next++; CHECK(harbol_map_insert(&p,k,kn,&val,sizeof val),"map-insert","insert of a new key refused at %zu entries",n); m_key(&m[n],k,kn); m_val(&m[n],(uint8_t*)&val,8); n++; }
		OP("add %zu (now %zu)",add,n); vf_mix(add); COUNT_N("bulk-inserted",add); verify(&p,"bulk insert",true); if( n>1000 ) COUNT("thousand-entries");
		size_t rm=vf_below(n<60? n:60); for( size_t i=0; i<rm; i++ ) { size_t x=vf_below(n); if( vf_chance(1,2) ) CHECK(harbol_map_key_rm(&p,m[x].k,m[x].kn),"map-remove","removing a present key refused"); else CHECK(harbol_map_idx_rm(&p,x),"map-remove","removing position %zu refused",x); removed(x); }
		OP("remove %zu",rm); verify(&p,"bulk removal",true);
		if( vf_chance(1,3) ) { size_t sz=n+vf_below(1000); CHECK(harbol_map_rehash(&p,sz)||!n,"map-rehash","rehash to %zu refused",sz); OP("rehash %zu",sz); verify(&p,"rehash",true); }
	}
	harbol_map_clear(&p); m_clear(); verify(&p,"clear",true); vf_leak_check("map-leak");
}
/* more entries than 16 bits can count */
static void huge(uint64_t idx) {
	vf_set_cpu_limit(90);
	size_t N=vf_range(65540,65800); uint32_t mul=1; /* few collisions: an absent key that collides costs a scan of the table */ struct HarbolMap p={0}; CHECK(harbol_map_init(&p,1000003),"map-new","init failed"); p.seed=12345+vf_below(8); /* how many keys collide depends on the seed */ clock_t t0=clock(); OP("huge %zu",N); vf_mix(N); vf_mix(mul);
	for( size_t i=0; i<N; i++ ) { if( clock()-t0 > 60*CLOCKS_PER_SEC ) { COUNT("huge-abandoned-slow"); harbol_map_clear(&p); return; } uint32_t kx=(uint32_t)i*mul; size_t v=i*3+1; CHECK(harbol_map_insert(&p,&kx,4,&v,sizeof v),"map-insert","insert of a new key refused at %zu entries",i); }
	size_t at[3]={vf_below(N),65535,65536}; size_t gone=SIZE_MAX; CHECK(p.len==N,"map-count","%zu entries, expected %zu",p.len,N);
	for( int r=0; r<2; r++ ) {
		for( size_t i=0; i<N; i++ ) { if( i==gone ) continue; size_t pos=i-(gone!=SIZE_MAX && i>gone); uint32_t kx=(uint32_t)i*mul; size_t *g=harbol_map_key_get(&p,&kx,4); CHECK(g && *g==i*3+1,"map-lookup","key %zu of %zu not found with its value",i,N); CHECK(harbol_map_get_entry_index(&p,&kx,4)==pos,"map-lookup","key %zu of %zu found at another position",i,N); g=harbol_map_idx_get(&p,pos); CHECK(g && *g==i*3+1,"map-positional","position %zu of %zu holds the wrong value",pos,N); }
		uint32_t no=(uint32_t)N*mul; CHECK(!harbol_map_has_key(&p,&no,4) && harbol_map_idx_get(&p,p.len)==NULL,"map-absent","absent key found");
		if( r==0 ) { gone=at[vf_below(3)]; uint32_t kx=(uint32_t)gone*mul; if( vf_chance(1,2) ) CHECK(harbol_map_key_rm(&p,&kx,4),"map-remove","removal refused"); else CHECK(harbol_map_idx_rm(&p,gone),"map-remove","removal refused"); CHECK(!harbol_map_has_key(&p,&kx,4),"map-remove","removed key still found"); OP("remove %zu",gone); if( vf_chance(1,2) ) CHECK(harbol_map_rehash(&p,1000033),"map-rehash","rehash refused"); } }
	/* overwrite, find by value and remove behind the 65536th entry */
	{ size_t len=p.len, i=vf_range(65537,len-1); uint32_t kx=0; size_t kl=0; for( int q=0; q<3; q++ ) { i=vf_range(65537-(size_t)q*2,len-1); size_t id=(*(size_t*)harbol_map_idx_get(&p,i)-1)/3, nv=id*3+2; if( id>=N ) continue; kx=(uint32_t)id*mul; CHECK(q==0? harbol_map_key_set(&p,&kx,4,&nv,sizeof nv) : harbol_map_idx_set(&p,i,&nv,sizeof nv),"map-set","overwriting entry %zu refused",i); size_t *g=harbol_map_idx_get(&p,i); CHECK(p.len==len && g && *g==nv,"map-set","entry %zu not overwritten",i); g=harbol_map_key_get(&p,&kx,4); CHECK(g && *g==nv,"map-set","key of entry %zu not overwritten",i);
	    CHECK(harbol_map_idx_val(&p,&nv,sizeof nv)==i,"map-find-value","value of entry %zu found elsewhere",i); uint32_t *kp=harbol_map_key_val(&p,&nv,sizeof nv,&kl); CHECK(kp && kl==4 && *kp==kx,"map-find-value","key of the value of entry %zu",i); size_t ov=id*3+1; CHECK(harbol_map_idx_val(&p,&ov,sizeof ov)==SIZE_MAX && harbol_map_key_val(&p,&ov,sizeof ov,&kl)==NULL,"map-find-value","overwritten value still found"); }
	  uint32_t last=(uint32_t)(N-1)*mul; if( gone!=N-1 ) { CHECK(harbol_map_key_rm(&p,&last,4) && p.len==len-1 && !harbol_map_has_key(&p,&last,4),"map-remove","removing the last of %zu entries",len); len--; }
	  i=vf_range(65536,len-2); size_t nx=*(size_t*)harbol_map_idx_get(&p,i+1); CHECK(harbol_map_idx_rm(&p,i) && p.len==len-1 && *(size_t*)harbol_map_idx_get(&p,i)==nx,"map-remove","removing position %zu",i); if( harbol_map_has_key(&p,&kx,4) ) CHECK(!harbol_map_insert(&p,&kx,4,&nx,sizeof nx),"map-insert","duplicate accepted"); }
	COUNT("beyond-16-bit-count"); harbol_map_clear(&p); vf_leak_check("map-leak");
}
struct vf_mode const vf_modes[] = { {"history", history}, {"large", history_large}, {"many", many}, {"huge", huge}, {0} };
struct vf_probe const vf_probes[] = { {0} };
