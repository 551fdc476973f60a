/* C02: harbol_array against an abstract sequence of fixed-size elements. */
#include "vf.h"
#include "array/array.h"
#define MAXM 4096
struct model { uint8_t *b; size_t len; };
static size_t ds; static bool large; static uint8_t v[9000], w[9000], old[9000];
static void gen_val(uint8_t *v) { /* small alphabet so searches hit */
	if( vf_chance(3,4) ) { memset(v, (int)vf_below(4), ds); if( vf_chance(1,2) ) v[ds-1] = (uint8_t)vf_below(3); }
	else vf_bytes(v, ds);
}
static size_t pick_index(size_t len) {
	switch( vf_below(10) ) {
		case 0: return 0; case 1: return len? len-1:0; case 2: return len; case 3: return len+1;
		case 4: return SIZE_MAX; case 5: return SIZE_MAX - vf_below(4); default: return vf_below(len? len:1);
	}
}
static void verify(struct HarbolArray const *a, struct model const *m, char const *after) {
	CHECK(a->len==m->len, "array-length", "after %s: length %zu, expected %zu", after, a->len, m->len);
	CHECK(harbol_array_len(a)==m->len, "array-length", "after %s: reported length", after);
	CHECK(a->len <= a->cap && harbol_array_cap(a)==a->cap, "array-capacity", "after %s: length %zu exceeds capacity %zu", after, a->len, a->cap);
	CHECK(harbol_array_empty(a)==(m->len==0), "array-empty", "after %s", after);
	CHECK(harbol_array_full(a)==(a->len>=a->cap), "array-full", "after %s", after);
	if( a->table ) CHECK(memcmp(a->table, m->b, m->len*ds)==0, "array-contents", "after %s: contents differ from the abstract sequence", after);
	CHECK(*harbol_array_data(a)==(void*)a->table, "array-data", "data accessor");
	/* the whole capacity is real storage: touch it (the sanitizers / ledger judge) */
	if( a->table && a->cap ) { volatile uint8_t s = a->table[0]; s = a->table[a->cap*ds-1]; (void)s; }
}
static void m_resize(struct model *m, size_t cap) { if( m->len > cap ) m->len = cap; }
static void run(uint64_t idx) {
	ds = vf_chance(1,4)? 1 : vf_chance(1,2)? (size_t)8 : vf_range(1,24); size_t lens=40, maxm=MAXM;
	if( large ) { if( vf_chance(1,2) ) { ds=1+vf_size(8000); maxm = ds>500? 300:1000; } else { ds=vf_range(1,9); lens=20000; maxm=70000; } if( ds>255 ) COUNT("wide-element"); }
	bool res=false, heap = vf_chance(1,3);
	size_t init = large? vf_size(lens>40? 3000:20) : vf_below(12);
	vf_mix(ds); vf_mix(init);
	struct HarbolArray st = {0}, *a = &st;
	uint8_t *ext = NULL;
	struct model m = { vf_xcalloc(maxm*2, ds), 0 };
	unsigned kind = (unsigned)vf_below(5);
	if( kind==0 ) { a = harbol_array_new(ds, init); CHECK(a!=NULL, "array-new", "constructor failed"); OP("new ds=%zu init=%zu", ds, init); }
	else if( kind==1 ) { ext = calloc(init+1, ds); vf_bytes(ext, init*ds); m.len = vf_below(init+1); memcpy(m.b, ext, m.len*ds); st = harbol_array_make_from_array(ext, init+1, m.len); OP("from_array cap=%zu len=%zu ds=%zu", init+1, m.len, ds); }
	else if( kind==2 ) { ext = calloc(init+1, ds); vf_bytes(ext, init*ds); m.len = vf_below(init+1); memcpy(m.b, ext, m.len*ds); a = harbol_array_new_from_array(ext, init+1, m.len); CHECK(a!=NULL,"array-new","constructor failed"); OP("new_from_array cap=%zu len=%zu ds=%zu", init+1, m.len, ds); }
	else if( kind==3 ) { st = harbol_array_make(ds, init, &res); CHECK(res,"array-make","constructor failed"); OP("make ds=%zu init=%zu", ds, init); }
	else { CHECK(harbol_array_init(&st, ds, init),"array-init","init failed"); OP("init ds=%zu init=%zu", ds, init); }
	if( kind!=1 && kind!=2 ) CHECK(a->cap>=init && a->len==0, "array-capacity", "initial capacity %zu for %zu", a->cap, init);
	verify(a, &m, "construction");
	size_t nops = vf_range(1, 60), grown=0;
	for( size_t o=0; o<nops; o++ ) {
		unsigned op = (unsigned)vf_below(large? 26:24); vf_mix(op); if( op==25 ) op=24;
		char const *nm="";
		size_t cap = a->cap;
		switch( op ) {
		case 24: { size_t k=vf_size(a->cap-m.len); gen_val(v); for( size_t i=0; i<k; i++ ) { if( vf_chance(1,4) ) gen_val(v); CHECK(harbol_array_insert(a,v,ds),"array-insert","insert with len %zu cap %zu refused",m.len,a->cap); memcpy(m.b+m.len*ds,v,ds); m.len++; } OP("insert x%zu",k); nm="bulk insert"; vf_mix(k); if( m.len>255 ) COUNT("long-array"); } break;
		case 0: case 1: case 2: { gen_val(v); void *src=v; if( m.len && vf_chance(1,6) ) { size_t j=vf_below(m.len); src=harbol_array_get(a,j,ds); memcpy(v,m.b+j*ds,ds); COUNT("own-element"); } vf_mix_bytes(v,ds); bool r = harbol_array_insert(a, src, ds); OP("insert %s -> %d", vf_quote(v,ds), r); nm="insert";
			CHECK(r==(m.len<cap), "array-insert", "insert with len %zu cap %zu returned %d", m.len, cap, r);
			if( r ) { memcpy(m.b+m.len*ds, v, ds); m.len++; COUNT("inserted"); } else COUNT("insert-refused-full"); } break;
		case 3: case 4: { gen_val(v); void *src=v; if( m.len && vf_chance(1,6) ) { size_t j=vf_below(m.len); src=harbol_array_get(a,j,ds); memcpy(v,m.b+j*ds,ds); COUNT("own-element"); } vf_mix_bytes(v,ds); size_t r = harbol_array_append(a, src, ds); OP("append -> %zd", (ssize_t)r); nm="append";
			CHECK(r==(m.len<cap? m.len : SIZE_MAX), "array-append", "append with len %zu cap %zu returned %zd", m.len, cap, (ssize_t)r);
			if( r!=SIZE_MAX ) { memcpy(m.b+m.len*ds, v, ds); m.len++; COUNT("appended"); } } break;
		case 5: if( a->cap < (maxm<8000? 300 : 17000) && a->cap*4 <= maxm*2 ) { bool r = harbol_array_grow(a, ds); OP("grow -> %d cap %zu", r, a->cap); nm="grow"; CHECK(r && a->cap>cap, "array-grow", "grow from %zu to %zu returned %d", cap, a->cap, r); grown++; 
			for( size_t i=cap*ds; i<a->cap*ds; i++ ) CHECK(a->table[i]==0, "array-grow-zero", "grown storage not zero-filled"); COUNT("grown"); } break;
		case 6: { size_t n = vf_chance(1,12)? (vf_chance(1,2)? SIZE_MAX - vf_below(3) : ((size_t)1<<vf_range(40,63)) + vf_below(2)) : vf_size(lens); bool r = harbol_array_resize(a, ds, n); OP("resize %zu -> %d cap %zu", n, r, a->cap); nm="resize"; vf_mix(n);
			CHECK(r==(a->cap!=cap), "array-resize", "resize result disagrees with capacity change");
			if( n <= lens ) CHECK(a->cap >= n, "array-resize", "resize to %zu gave capacity %zu", n, a->cap);
			else { CHECK(!r && a->cap==cap, "array-resize-huge", "impossible capacity %zu was not refused", n); COUNT("resize-impossible"); }
			if( a->cap < m.len ) COUNT("resize-below-length");
			m_resize(&m, a->cap); } break;
		case 7: { bool ex = vf_chance(1,2); bool r = harbol_array_shrink(a, ds, ex); OP("shrink exact=%d -> %d cap %zu", ex, r, a->cap); nm="shrink";
			CHECK(r==(a->cap<cap), "array-shrink", "shrink result disagrees with capacity change");
			if( ex && cap>ARRAY_DEFAULT_SIZE && m.len && cap>m.len ) CHECK(r, "array-shrink", "exact fit of %zu elements in capacity %zu refused", m.len, cap);
			if( r && ex ) CHECK(a->cap==m.len, "array-shrink", "exact fit capacity %zu for %zu elements", a->cap, m.len);
			if( r ) COUNT("shrunk"); } break;
		case 8: if( vf_chance(1,6) ) { harbol_array_wipe(a, ds); OP("wipe"); nm="wipe"; m.len=0; for( size_t i=0; a->table && i<a->cap*ds; i++ ) CHECK(a->table[i]==0,"array-wipe","wipe left data behind"); COUNT("wiped"); } break;
		case 9: { void *p = harbol_array_pop(a, ds); OP("pop -> %s", p? "ptr":"null"); nm="pop"; CHECK((p!=NULL)==(m.len>0), "array-pop", "pop with %zu elements", m.len);
			if( p ) { m.len--; CHECK(!memcmp(p, m.b+m.len*ds, ds), "array-pop-value", "pop returned wrong element"); COUNT("popped"); } else COUNT("pop-refused-empty"); } break;
		case 10: { memset(w,0xEE,ds+8); bool r = harbol_array_pop_ex(a, w, ds); OP("pop_ex -> %d", r); nm="pop_ex"; CHECK(r==(m.len>0), "array-pop", "pop_ex with %zu elements", m.len);
			if( r ) { m.len--; CHECK(!memcmp(w, m.b+m.len*ds, ds), "array-pop-value", "pop_ex returned wrong element"); CHECK(w[ds]==0xEE,"array-pop-overrun","pop_ex wrote beyond the element"); COUNT("popped"); } else COUNT("pop-refused-empty"); } break;
		case 11: { memset(w,0xEE,ds+8); void *p = harbol_array_peek(a, ds); bool r = harbol_array_peek_ex(a, w, ds); OP("peek"); nm="peek"; CHECK((p!=NULL)==(m.len>0) && r==(m.len>0), "array-peek", "peek with %zu elements", m.len);
			if( p ) CHECK(!memcmp(p, m.b+(m.len-1)*ds, ds) && !memcmp(w, p, ds) && w[ds]==0xEE, "array-peek", "peek returned wrong element"); } break;
		case 12: case 13: { size_t i = pick_index(m.len); memset(w,0xEE,ds+8); void *p = harbol_array_get(a, i, ds); bool r = harbol_array_get_ex(a, i, w, ds); OP("get %zd", (ssize_t)i); nm="get"; vf_mix(i);
			CHECK((p!=NULL)==(i<m.len) && r==(i<m.len), "array-get", "get index %zu with %zu elements", i, m.len);
			if( p ) { CHECK(!memcmp(p, m.b+i*ds, ds) && !memcmp(w, p, ds) && w[ds]==0xEE, "array-get", "wrong element at %zu", i); COUNT("got"); } else COUNT("index-refused"); } break;
		case 14: case 15: { size_t i = pick_index(m.len); gen_val(v); void *src=v; if( m.len && vf_chance(1,6) ) { size_t j=vf_below(m.len); if( j!=i ) { src=harbol_array_get(a,j,ds); memcpy(v,m.b+j*ds,ds); COUNT("own-element"); } } bool r = harbol_array_set(a, i, src, ds); OP("set %zd -> %d", (ssize_t)i, r); nm="set"; vf_mix(i);
			CHECK(r==(i<m.len), "array-set", "set index %zu with %zu elements", i, m.len); if( r ) memcpy(m.b+i*ds, v, ds); else COUNT("index-refused"); } break;
		case 16: { bool r = harbol_array_swap(a, ds); OP("reverse -> %d", r); nm="reverse"; CHECK(r==(a->table!=NULL),"array-reverse","reverse refused");
			for( size_t i=0; i<m.len/2; i++ ) { memcpy(old, m.b+i*ds, ds); memcpy(m.b+i*ds, m.b+(m.len-1-i)*ds, ds); memcpy(m.b+(m.len-1-i)*ds, old, ds); } COUNT("reversed"); } break;
		case 17: { size_t i = pick_index(m.len), n = vf_chance(1,6)? SIZE_MAX - vf_below(5) : vf_below(m.len+3); bool r = vf_chance(1,2)? harbol_array_del_by_range(a, i, ds, n) : harbol_array_shift_up(a, i, ds, n);
			OP("del_range %zd %zd -> %d", (ssize_t)i, (ssize_t)n, r); nm="delete range"; vf_mix(i); vf_mix(n);
			if( i < m.len ) { size_t k = n? n:1; if( k > m.len-i ) { k = m.len-i; COUNT("range-clamped"); }
				CHECK(r, "array-del-range", "range at %zu of %zu refused", i, m.len);
				memmove(m.b+i*ds, m.b+(i+k)*ds, (m.len-i-k)*ds); m.len-=k; COUNT("range-deleted"); }
			else if( m.len ) { CHECK(!r, "array-del-range", "range at %zu accepted with %zu elements", i, m.len); COUNT("index-refused"); } } break;
		case 18: { size_t i = pick_index(m.len); bool r = harbol_array_del_by_index(a, i, ds); OP("del_index %zd -> %d", (ssize_t)i, r); nm="delete index"; vf_mix(i);
			CHECK(r==(i<m.len), "array-del-index", "delete index %zu with %zu elements returned %d", i, m.len, r);
			if( r ) { memmove(m.b+i*ds, m.b+(i+1)*ds, (m.len-i-1)*ds); m.len--; COUNT("deleted"); } else COUNT("index-refused"); } break;
		case 19: { gen_val(v); void *src=v; if( m.len && vf_chance(1,5) ) { size_t j= vf_chance(1,2)? m.len-1 : vf_below(m.len); src= j==m.len-1? harbol_array_peek(a,ds) : harbol_array_get(a,j,ds); memcpy(v,m.b+j*ds,ds); COUNT("own-element"); } bool r = harbol_array_del_by_val(a, src, ds); size_t i=0; while( i<m.len && memcmp(m.b+i*ds, v, ds) ) i++;
			OP("del_val -> %d", r); nm="delete value"; CHECK(r==(i<m.len), "array-del-val", "delete by value returned %d", r);
			if( r ) { memmove(m.b+i*ds, m.b+(i+1)*ds, (m.len-i-1)*ds); m.len--; COUNT("deleted-by-value"); } } break;
		case 20: { gen_val(v); size_t from = vf_chance(1,2)? 0 : pick_index(m.len), c=0, f=SIZE_MAX; for( size_t i=0; i<m.len; i++ ) if( !memcmp(m.b+i*ds, v, ds) ) { c++; if( f==SIZE_MAX && i>=from ) f=i; }
			void *src=v; if( m.len && vf_chance(1,4) ) { size_t j=vf_below(m.len); src=harbol_array_get(a,j,ds); memcpy(v,m.b+j*ds,ds); COUNT("own-element"); c=0; f=SIZE_MAX; for( size_t i=0; i<m.len; i++ ) if( !memcmp(m.b+i*ds, v, ds) ) { c++; if( f==SIZE_MAX && i>=from ) f=i; } } size_t rc = harbol_array_item_count(a, src, ds), rf = harbol_array_index_of(a, src, ds, from); OP("count/find from %zd -> %zu %zd", (ssize_t)from, rc, (ssize_t)rf); nm="find";
			CHECK(rc==c, "array-count", "counted %zu, expected %zu", rc, c); CHECK(rf==f, "array-find", "found at %zd, expected %zd", (ssize_t)rf, (ssize_t)f); if( c>1 ) COUNT("found-multiple"); } break;
		case 21: if( vf_chance(1,6) ) { gen_val(v); bool r = harbol_array_fill(a, v, ds); OP("fill -> %d", r); nm="fill"; CHECK(r==(a->table!=NULL), "array-fill", "fill refused"); if( r ) { for( size_t i=0; i<a->cap; i++ ) memcpy(m.b+i*ds, v, ds); m.len=a->cap; COUNT("filled"); } } break;
		case 22: case 23: { /* second array: add / copy in either direction */
			struct HarbolArray b = harbol_array_make(ds, large? vf_size(lens>40? 600:10) : vf_below(10), &res); CHECK(res,"array-make","constructor failed");
			size_t n = vf_below(b.cap+1); for( size_t i=0; i<n; i++ ) { gen_val(v); CHECK(harbol_array_insert(&b, v, ds),"array-insert","insert into fresh array"); }
			uint8_t *img = vf_exact_buf(b.table, n*ds? n*ds:1); 
			CHECK(harbol_array_len_diff(a,&b)==(m.len>n? m.len-n : n-m.len),"array-diff","length difference"); CHECK(harbol_array_cap_diff(a,&b)==(a->cap>b.cap? a->cap-b.cap : b.cap-a->cap),"array-diff","capacity difference");
			if( op==22 ) { bool self = vf_chance(1,6), r = self? harbol_array_add(a, a, ds) : harbol_array_add(a, &b, ds); size_t add = self? m.len : n; OP("add %zu%s -> %d", add, self?" (self)":"", r); nm="add";
				bool fits = m.len+add <= cap && a->table; CHECK(r==fits, "array-add", "adding %zu to %zu with capacity %zu returned %d", add, m.len, cap, r);
				if( r ) { memcpy(m.b+m.len*ds, self? m.b : img, add*ds); m.len+=add; COUNT("bulk-added"); if( m.len==cap ) COUNT("bulk-added-exact-fit"); } }
			else { bool r = harbol_array_copy(a, &b, ds); OP("copy %zu -> %d", n, r); nm="copy"; CHECK(r==(a->table!=NULL), "array-copy", "copy refused");
				if( r ) { m.len = cap<n? cap:n; memcpy(m.b, img, m.len*ds); COUNT("copied"); } 
				CHECK(harbol_array_copy(a,a,ds),"array-copy","self copy"); }
			CHECK(b.len==n && !memcmp(b.table,img,n*ds), "array-source-changed", "source array changed by add/copy");
			vf_xfree(img); harbol_array_clear(&b); } break;
		}
		if( m.len > maxm ) break;
		verify(a, &m, nm);
	}
	OP("clear");
	harbol_array_clear(a); CHECK(a->table==NULL && a->len==0 && a->cap==0, "array-clear", "clear left state behind"); harbol_array_clear(a);
	m.len=0; verify(a,&m,"clear");
	if( vf_chance(1,3) ) { gen_val(v); CHECK(!harbol_array_insert(a,v,ds),"array-insert","insert into cleared array accepted"); CHECK(harbol_array_pop(a,ds)==NULL,"array-pop","pop of cleared array");
		CHECK(harbol_array_append(a,v,ds)==SIZE_MAX && !harbol_array_set(a,0,v,ds) && !harbol_array_del_by_index(a,0,ds) && !harbol_array_fill(a,v,ds) && harbol_array_index_of(a,v,ds,0)==SIZE_MAX,"array-cleared","operation on cleared array accepted");
		uint8_t tmp=0; struct HarbolArray q=harbol_array_make(ds,3,&res); CHECK(res && harbol_array_insert(&q,v,ds),"array-make","constructor failed"); size_t qc=q.cap;
		CHECK(harbol_array_item_count(a,v,ds)==0 && harbol_array_peek(a,ds)==NULL && harbol_array_get(a,0,ds)==NULL && !harbol_array_pop_ex(a,w,ds) && !harbol_array_peek_ex(a,w,ds) && !harbol_array_get_ex(a,0,w,ds) && !harbol_array_swap(a,ds) && !harbol_array_shift_up(a,0,ds,1) && !harbol_array_del_by_range(a,0,ds,1) && !harbol_array_del_by_val(a,v,ds) && !harbol_array_shrink(a,ds,true) && harbol_array_empty(a),"array-cleared","operation on cleared array accepted");
		CHECK(!harbol_array_copy(a,&q,ds) && !harbol_array_copy(&q,a,ds) && !harbol_array_add(a,&q,ds) && !harbol_array_add(&q,a,ds) && a->table==NULL && a->len==0 && q.len==1 && q.cap==qc && !memcmp(q.table,v,ds),"array-cleared","add/copy with a cleared array accepted or changed the other array"); harbol_array_clear(&q); harbol_array_wipe(a,ds); (void)tmp;
		CHECK(a->table==NULL && a->len==0 && a->cap==0,"array-cleared","refused operations changed the cleared array");
		CHECK(harbol_array_grow(a,ds) && harbol_array_insert(a,v,ds) && !memcmp(harbol_array_get(a,0,ds),v,ds),"array-reuse","array not reusable after clear"); COUNT("reused-after-clear"); harbol_array_clear(a); }
	if( a!=&st ) { struct HarbolArray *p=a; if( vf_chance(1,2) ) harbol_array_cleanup(&p); else harbol_array_free(&p); CHECK(p==NULL,"array-free","pointer not reset"); }
	vf_xfree(m.b);
	vf_leak_check("array-leak");
	if( nops < 3 ) vf_trivial();
}
static void run_large(uint64_t idx) { large=true; run(idx); large=false; }
/* more elements than 16 bits can count */
static void huge(uint64_t idx) {
	size_t N=vf_range(65540,150000), step=vf_below(2)? 4:8; bool res; struct HarbolArray a=harbol_array_make(step,vf_below(2)? 0:N/2,&res), b={0}; CHECK(res,"array-make","constructor failed"); OP("huge %zu of %zu",N,step); vf_mix(N);
	for( size_t i=0; i<N; i++ ) { uint64_t x=i*7+1; if( harbol_array_full(&a) ) CHECK(harbol_array_grow(&a,step),"array-grow","grow refused at %zu",i); if( vf_chance(1,2) ) CHECK(harbol_array_append(&a,&x,step)==i,"array-append","append gave another position than %zu",i); else CHECK(harbol_array_insert(&a,&x,step),"array-insert","insert refused at %zu",i); }
	#define EL(q,i) ((uint64_t)(step==4? *(uint32_t*)harbol_array_get(q,i,step) : *(uint64_t*)harbol_array_get(q,i,step)))
	CHECK(a.len==N,"array-length","length %zu, expected %zu",a.len,N); for( size_t i=0; i<N; i++ ) CHECK(EL(&a,i)==i*7+1,"array-contents","element %zu wrong",i);
	uint64_t w=65537*7+1; CHECK(harbol_array_index_of(&a,&w,step,vf_below(65536))==65537 && harbol_array_item_count(&a,&w,step)==1,"array-find","element 65537 not found"); CHECK(harbol_array_get(&a,N,step)==NULL,"array-get","index beyond the end accepted");
	CHECK(harbol_array_init(&b,step,2*N+5),"array-init","init failed"); CHECK(harbol_array_add(&b,&a,step) && harbol_array_add(&b,&a,step) && b.len==2*N,"array-add","bulk add"); for( size_t i=0; i<2*N; i++ ) CHECK(EL(&b,i)==(i%N)*7+1,"array-contents","element %zu wrong after bulk add",i);
	for( size_t k=N; k>N-3; k-- ) { uint64_t x=0; memset(v,0xEE,sizeof v); void *top=harbol_array_peek(&b,step); CHECK(top && !memcmp(top,harbol_array_get(&b,2*N-1,step),step) && harbol_array_peek_ex(&b,v,step) && !memcmp(v,top,step),"array-peek","last of %zu elements",2*N); size_t at=vf_range(65536,N-1); CHECK(harbol_array_get_ex(&a,at,v,step) && !memcmp(v,harbol_array_get(&a,at,step),step),"array-get","get_ex at %zu",at); x=at*7+2; CHECK(harbol_array_set(&a,at,&x,step) && EL(&a,at)==x,"array-set","set at %zu",at); x=at*7+1; CHECK(harbol_array_set(&a,at,&x,step) && EL(&a,at)==x,"array-set","set at %zu",at); }
	{ uint64_t x=0; uint32_t y=0; void *to= step==4? (void*)&y:(void*)&x; CHECK(harbol_array_pop_ex(&b,to,step) && b.len==2*N-1 && (step==4? y:x)==(N-1)*7+1,"array-pop","pop_ex of %zu",2*N); CHECK(harbol_array_insert(&b,to,step) && EL(&b,2*N-1)==(N-1)*7+1,"array-insert","refused"); void *p=harbol_array_pop(&b,step); CHECK(p && b.len==2*N-1 && !memcmp(p,to,step),"array-pop","pop of %zu",2*N); CHECK(harbol_array_append(&b,to,step)==2*N-1,"array-append","refused"); }
	CHECK(harbol_array_swap(&a,step),"array-reverse","refused"); for( size_t i=0; i<N; i++ ) CHECK(EL(&a,i)==(N-1-i)*7+1,"array-contents","element %zu wrong after reversal",i);
	size_t at=vf_below(100), k=vf_range(65536,N-at); CHECK(harbol_array_del_by_range(&a,at,step,k) && a.len==N-k,"array-del-range","range of %zu not deleted",k); for( size_t i=0; i<N-k; i++ ) CHECK(EL(&a,i)==(N-1-(i<at? i:i+k))*7+1,"array-contents","element %zu wrong after range deletion",i);
	CHECK(harbol_array_copy(&a,&b,step),"array-copy","refused"); CHECK(a.len==(a.cap<2*N? a.cap:2*N) && EL(&a,a.len-1)==((a.len-1)%N)*7+1,"array-copy","copy incomplete");
	CHECK(harbol_array_del_by_index(&b,65536,step) && b.len==2*N-1 && EL(&b,65536)==65537*7+1,"array-del-index","deletion at 65536");
	{ size_t c=b.cap; CHECK(!harbol_array_resize(&b,step,c) || b.cap!=c,"array-resize","resize result disagrees with capacity"); c=b.cap; bool ex=vf_chance(1,2), r=harbol_array_shrink(&b,step,ex); CHECK(r==(b.cap<c) && b.len==2*N-1 && b.cap>=b.len && (!r || !ex || b.cap==b.len),"array-shrink","shrink from %zu to %zu for %zu elements returned %d",c,b.cap,b.len,r); CHECK(vf_ledger_size(b.table)>=b.cap*step,"array-capacity","capacity %zu is not real storage",b.cap);
	  for( size_t i=0; i<b.len; i++ ) CHECK(EL(&b,i)==((i<65536? i:i+1)%N)*7+1,"array-contents","element %zu wrong after shrinking",i); }
	{ uint64_t no=3; CHECK(!harbol_array_del_by_val(&b,&no,step) && b.len==2*N-1 && harbol_array_item_count(&b,&no,step)==0 && harbol_array_index_of(&b,&no,step,0)==SIZE_MAX,"array-del-val","absent value deleted or found"); size_t i=65538; uint64_t x=EL(&b,i); CHECK(x==65539%N*7+1,"array-contents","element wrong"); size_t f=harbol_array_index_of(&b,&x,step,0); CHECK(harbol_array_del_by_val(&b,&x,step) && b.len==2*N-2 && EL(&b,f)==((f+1<65536? f+1:f+2)%N)*7+1 && EL(&b,2*N-3)==(N-1)*7+1,"array-del-val","deletion by value at %zu",f); }
	{ uint64_t x=77; CHECK(harbol_array_fill(&b,&x,step) && b.len==b.cap,"array-fill","refused"); for( size_t i=0; i<b.len; i++ ) CHECK(EL(&b,i)==77,"array-fill","element %zu not filled",i); CHECK(harbol_array_item_count(&b,&x,step)==b.cap,"array-count","count of %zu equal elements",b.cap); CHECK(b.cap<65536 || harbol_array_index_of(&b,&x,step,65536)==65536,"array-find","find from 65536"); harbol_array_wipe(&b,step); CHECK(b.len==0,"array-wipe","length"); for( size_t i=0; i<b.cap*step; i++ ) CHECK(b.table[i]==0,"array-wipe","byte %zu not wiped",i); }
	COUNT("beyond-16-bit-count"); harbol_array_clear(&a); harbol_array_clear(&b); vf_leak_check("array-leak");
}
/* elements of more than 65535 bytes */
static void vast(uint64_t idx) {
	size_t ws=vf_range(65537,70000); bool res; struct HarbolArray a=harbol_array_make(ws,4,&res), b; CHECK(res,"array-make","constructor failed"); size_t n=vf_range(3,5); uint8_t *M=vf_xcalloc(12,ws), *o=vf_xcalloc(1,ws+8); OP("vast %zu x %zu bytes",n,ws); vf_mix(ws); vf_mix(n);
	for( size_t i=0; i<n; i++ ) { memset(M+i*ws,'a',ws); M[i*ws+vf_range(65536,ws-1)]=(uint8_t)i; if( harbol_array_full(&a) ) CHECK(harbol_array_grow(&a,ws),"array-grow","refused"); if( i&1 ) CHECK(harbol_array_insert(&a,M+i*ws,ws),"array-insert","refused"); else CHECK(harbol_array_append(&a,M+i*ws,ws)==i,"array-append","refused"); }
	#define SAME(what) do { CHECK(a.len==n,"array-length","after %s: length %zu, expected %zu",what,a.len,n); for( size_t i_=0; i_<n; i_++ ) CHECK(!memcmp(harbol_array_get(&a,i_,ws),M+i_*ws,ws),"array-contents","after %s: element %zu of %zu bytes wrong",what,i_,ws); } while( 0 )
	SAME("inserting"); for( size_t i=0; i<n; i++ ) { CHECK(harbol_array_index_of(&a,M+i*ws,ws,0)==i && harbol_array_item_count(&a,M+i*ws,ws)==1,"array-find","element %zu found elsewhere: they differ beyond byte 65535",i); }
	CHECK(harbol_array_swap(&a,ws),"array-reverse","refused"); for( size_t i=0; i<n/2; i++ ) { memcpy(o,M+i*ws,ws); memcpy(M+i*ws,M+(n-1-i)*ws,ws); memcpy(M+(n-1-i)*ws,o,ws); } SAME("reversing");
	memset(o,7,ws); size_t k=vf_below(n); CHECK(harbol_array_set(&a,k,o,ws),"array-set","refused"); memcpy(M+k*ws,o,ws); SAME("setting"); memset(o,0xEE,ws+8); CHECK(harbol_array_get_ex(&a,k,o,ws) && !memcmp(o,M+k*ws,ws) && o[ws]==0xEE,"array-get","get_ex"); CHECK(harbol_array_peek_ex(&a,o,ws) && !memcmp(o,M+(n-1)*ws,ws) && o[ws]==0xEE,"array-peek","peek_ex");
	b=harbol_array_make(ws,8,&res); CHECK(res && harbol_array_copy(&b,&a,ws) && b.len==n && !memcmp(b.table,a.table,n*ws),"array-copy","copy"); if( b.cap>=2*n ) CHECK(harbol_array_add(&b,&a,ws) && !memcmp(b.table+n*ws,a.table,n*ws),"array-add","bulk add"); CHECK(harbol_array_fill(&b,M,ws),"array-fill","refused"); for( size_t i=0; i<b.cap; i++ ) CHECK(!memcmp(b.table+i*ws,M,ws),"array-fill","element %zu",i); harbol_array_clear(&b);
	k=vf_below(n); switch( vf_below(3) ) { case 0: CHECK(harbol_array_del_by_index(&a,k,ws),"array-del-index","refused"); break; case 1: CHECK(harbol_array_del_by_val(&a,M+k*ws,ws),"array-del-val","refused"); break; default: CHECK(harbol_array_del_by_range(&a,k,ws,1),"array-del-range","refused"); } memmove(M+k*ws,M+(k+1)*ws,(n-k-1)*ws); n--; SAME("deleting");
	uint8_t *p=harbol_array_pop(&a,ws); CHECK(p && !memcmp(p,M+(n-1)*ws,ws),"array-pop-value","pop"); n--; CHECK(harbol_array_pop_ex(&a,o,ws) && !memcmp(o,M+(n-1)*ws,ws) && o[ws]==0xEE,"array-pop-value","pop_ex"); n--; SAME("popping");
	COUNT("beyond-16-bit-element"); vf_xfree(M); vf_xfree(o); harbol_array_clear(&a); vf_leak_check("array-leak");
}
struct vf_mode const vf_modes[] = { {"vast", vast}, {"history", run}, {"large", run_large}, {"huge", huge}, {0} };
struct vf_probe const vf_probes[] = { {0} };
