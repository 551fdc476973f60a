/* C10: region and double-ended stack allocators against an interval model of the backing memory. */
#include "vf.h"
#include "allocators/region/region.h"
#include "allocators/bistack/bistack.h"
#define MAXB 400
struct blk { uint8_t *p; size_t n; uint8_t fill; };
static struct blk fr[MAXB], bk[MAXB]; static size_t nf, nb; static bool large;
static size_t up8(size_t n) { return (n+7)&~(size_t)7; }
static void intact(struct blk const *b, size_t n, char const *what) { for( size_t i=0; i<n; i++ ) if( b[i].n>512 && n>3 && !vf_chance(1,6) ) { CHECK(b[i].p[0]==b[i].fill && b[i].p[b[i].n-1]==b[i].fill && b[i].p[b[i].n/2]==b[i].fill,"arena-overlap","%s block %zu of %zu bytes was overwritten",what,i,b[i].n); } else for( size_t j=0; j<b[i].n; j++ ) CHECK(b[i].p[j]==b[i].fill,"arena-overlap","%s block %zu of %zu bytes was overwritten",what,i,b[i].n); }
static void disjoint(uint8_t *p, size_t n, uint8_t *mem, size_t size) {
	CHECK(p>=mem && n<=size && (size_t)(p-mem)<=size-n,"arena-bounds","block of %zu bytes at offset %zd leaves the %zu bytes of backing memory",n,(ssize_t)(p-mem),size);
	for( size_t i=0; i<nf; i++ ) CHECK(p>=fr[i].p+fr[i].n || p+n<=fr[i].p,"arena-overlap","new block overlaps a front block");
	for( size_t i=0; i<nb; i++ ) CHECK(p>=bk[i].p+bk[i].n || p+n<=bk[i].p,"arena-overlap","new block overlaps a back block");
	CHECK(((uintptr_t)p & 7)==0,"arena-alignment","block of %zu bytes is not aligned to a word (arena of %zu bytes)",n,size);
}
static size_t gen_size(size_t rem, bool *absurd) { *absurd=false; if( vf_chance(1,8) ) { *absurd=true; return vf_chance(1,2)? SIZE_MAX-vf_below(40) : vf_chance(1,2)? SIZE_MAX/2+vf_below(20)-10 : (size_t)1<<vf_range(33,63); } if( vf_chance(1,5) ) { size_t d=vf_below(18); return rem+9>d? rem+9-d : 1; } if( large ) return 1+vf_size(vf_chance(1,8)? 150000:3000); return vf_chance(1,4)? vf_range(1,200) : vf_range(1,24); }
static void region(uint64_t idx) {
	nf=nb=0; size_t size = large? vf_range(500,300000) : vf_chance(1,2)? 8*vf_range(1,64) : vf_range(1,500); if( large && vf_chance(1,2) ) size&=~(size_t)7; vf_mix(size); bool own=vf_chance(1,2); struct HarbolRegion r; void *buf=NULL;
	if( own ) r=harbol_region_make(size); else { buf=malloc(size); memset(buf,0xD7,size); r=harbol_region_make_from_buffer(buf,size); }
	CHECK(r.mem!=NULL,"region-new","constructor failed"); OP("region of %zu own=%d",size,own); if( !own ) CHECK(r.mem==buf,"region-new","buffer not used"); uint8_t *mem=r.mem; if( size%8 ) COUNT("odd-size");
	CHECK(harbol_region_remaining(&r)==size,"region-remaining","fresh region of %zu has %zu remaining",size,harbol_region_remaining(&r));
	size_t nops=vf_range(1,60), top=size;
	for( size_t o=0; o<nops; o++ ) {
		bool absurd; size_t rem=harbol_region_remaining(&r), n=gen_size(rem,&absurd); if( vf_chance(1,30) ) n=0; vf_mix(n);
		uint8_t *p=harbol_region_alloc(&r,n); size_t now=harbol_region_remaining(&r); OP("alloc %zu of %zu remaining -> %s, %zu remaining",n,rem,p? "block":"NULL",now);
		if( p==NULL ) { CHECK(now==rem,"region-refused","refused request changed the remaining space"); CHECK(n==0 || n>rem,"region-refused","request of %zu refused with %zu remaining",n,rem); COUNT("refused"); if( absurd ) COUNT("absurd-refused"); }
		else { CHECK(n>0 && n<=rem,"region-granted","request of %zu granted with %zu remaining",n,rem); disjoint(p,n,mem,size); CHECK(p+n<=mem+top,"region-order","block not below the previous one"); top=(size_t)(p-mem); CHECK(now==top,"region-remaining","%zu remaining, %zu bytes are below the last block",now,top); CHECK(rem-now>=n && rem-now<n+8+(rem%8),"region-remaining","taking %zu bytes lowered the remaining space by %zu",n,rem-now);
			for( size_t j=0; j<n; j++ ) CHECK(p[j]==0,"arena-zero","block not zeroed"); if( nf<MAXB ) { fr[nf].p=p; fr[nf].n=n; fr[nf].fill=(uint8_t)vf_range(1,255); memset(p,fr[nf].fill,n); nf++; } COUNT("granted"); if( now==0 ) COUNT("exhausted"); }
		intact(fr,nf,"region");
	}
	if( vf_chance(1,20) ) { struct HarbolRegion z=harbol_region_make(0); CHECK(z.mem==NULL && harbol_region_remaining(&z)==0 && harbol_region_alloc(&z,1)==NULL,"region-empty","empty region hands out memory"); harbol_region_clear(&z); uint64_t w[2]={0}; z=harbol_region_make_from_buffer(w,0); CHECK(harbol_region_remaining(&z)==0 && harbol_region_alloc(&z,1)==NULL && harbol_region_alloc(&z,0)==NULL,"region-empty","a region over an empty buffer hands out memory"); }
	if( own ) { harbol_region_clear(&r); CHECK(harbol_region_alloc(&r,1)==NULL && harbol_region_remaining(&r)==0,"region-clear","cleared region hands out memory"); harbol_region_clear(&r); } else free(buf);
	vf_leak_check("region-leak"); if( nops<3 ) vf_trivial();
}
static void bistack(uint64_t idx) {
	nf=nb=0; size_t size = large? vf_range(500,300000) : vf_chance(1,2)? 8*vf_range(1,80) : vf_range(1,640); if( large && vf_chance(1,2) ) size&=~(size_t)7; vf_mix(size); unsigned kind=(unsigned)vf_below(3); struct HarbolBiStack s={0}; bool res; void *buf=NULL;
	if( kind==0 ) { s=harbol_bistack_make(size,&res); CHECK(res,"bistack-new","constructor failed"); } else if( kind==1 ) CHECK(harbol_bistack_init(&s,size),"bistack-new","init failed"); else { buf=malloc(size); memset(buf,0xD7,size); s=harbol_bistack_make_from_buffer(buf,size); }
	OP("bistack of %zu kind=%u",size,kind); CHECK(harbol_bistack_get_margins(s)==size,"bistack-margins","fresh stack of %zu has margins %zu",size,harbol_bistack_get_margins(s)); if( size%8 ) COUNT("odd-size");
	size_t nops=vf_range(1,80), F=0, B=size;
	for( size_t o=0; o<nops; o++ ) {
		unsigned op=(unsigned)vf_below(12); vf_mix(op); bool absurd; size_t rem=harbol_bistack_get_margins(s); CHECK(rem==B-F,"bistack-margins","margins %zu, expected %zu",rem,B-F);
		if( op<8 ) { bool front=op<4; size_t n=gen_size(rem,&absurd); if( vf_chance(1,30) ) n=0; vf_mix(n); uint8_t *p = front? harbol_bistack_alloc_front(&s,n) : harbol_bistack_alloc_back(&s,n); size_t now=harbol_bistack_get_margins(s); OP("alloc_%s %zu with %zu left -> %s, %zu left",front?"front":"back",n,rem,p?"block":"NULL",now);
			if( p==NULL ) { CHECK(now==rem,"bistack-refused","refused request changed the margins"); CHECK(n==0 || n>rem || up8(n)+(front? 0 : B%8)>=rem,"bistack-refused","request of %zu refused with %zu left",n,rem); COUNT("refused"); if( absurd ) COUNT("absurd-refused"); }
			else { CHECK(n<=rem,"bistack-granted","request of %zu granted with %zu left",n,rem); if( n ) disjoint(p,n,s.mem,size); size_t at=(size_t)(p-s.mem); CHECK(now<=rem && rem-now>=n && rem-now<n+16,"bistack-margins","taking %zu bytes lowered the margins by %zu",n,rem-now);
				if( front ) { CHECK(at==F,"bistack-order","front block at %zu, expected %zu",at,F); F+=rem-now; } else { B-=rem-now; CHECK(at==B,"bistack-order","back block at %zu, expected %zu",at,B); }
				struct blk *b = front? &fr[nf] : &bk[nb]; if( n && (front? nf:nb)<MAXB ) { b->p=p; b->n=n; b->fill=(uint8_t)vf_rand(); memset(p,b->fill,n); if( front ) nf++; else nb++; } COUNT("granted"); if( front ) COUNT("front"); else COUNT("back"); } }
		else if( op==8 ) { harbol_bistack_reset_front(&s); F=0; nf=0; OP("reset_front"); COUNT("front-reset"); }
		else if( op==9 ) { harbol_bistack_reset_back(&s); B=size; nb=0; OP("reset_back"); COUNT("back-reset"); }
		else if( op==10 ) { if( vf_chance(1,3) ) { harbol_bistack_reset_all(&s); F=0; B=size; nf=nb=0; OP("reset_all"); COUNT("all-reset"); } }
		else if( kind!=2 && vf_chance(1,3) ) { size_t ns = large? vf_range(1,300000) : vf_range(1,640); CHECK(harbol_bistack_resize(&s,ns),"bistack-resize","refused"); size=ns; F=0; B=ns; nf=nb=0; OP("resize %zu",ns); memset(s.mem,0x11,ns); COUNT("resized"); }
		CHECK(harbol_bistack_get_margins(s)==B-F,"bistack-margins","margins %zu, expected %zu",harbol_bistack_get_margins(s),B-F);
		intact(fr,nf,"front"); intact(bk,nb,"back");
	}
	if( kind!=2 ) { harbol_bistack_clear(&s); CHECK(harbol_bistack_alloc_front(&s,1)==NULL && harbol_bistack_alloc_back(&s,1)==NULL && harbol_bistack_get_margins(s)==0,"bistack-clear","cleared stack hands out memory"); harbol_bistack_clear(&s); harbol_bistack_reset_all(&s); harbol_bistack_reset_back(&s); harbol_bistack_reset_front(&s); CHECK(harbol_bistack_alloc_back(&s,1)==NULL,"bistack-clear","cleared stack hands out memory"); if( vf_chance(1,10) ) CHECK(!harbol_bistack_init(&s,0),"bistack-empty","empty stack accepted"); } else free(buf);
	/* a cleared stack can be given memory again by init or resize and is then a fresh one */
	if( kind!=2 && vf_chance(1,3) ) { size_t ns=vf_range(17,2000); bool rs=vf_chance(1,2); vf_mix(ns); if( rs ) CHECK(harbol_bistack_resize(&s,ns),"bistack-resize","refused on a cleared stack"); else CHECK(harbol_bistack_init(&s,ns),"bistack-new","init of a cleared stack failed"); OP("%s %zu again",rs?"resize":"init",ns); CHECK(harbol_bistack_get_margins(s)==ns,"bistack-margins","a stack %s anew to %zu has margins %zu",rs?"resized":"made",ns,harbol_bistack_get_margins(s)); memset(s.mem,0x3C,ns); uint8_t *f=harbol_bistack_alloc_front(&s,8), *b=harbol_bistack_alloc_back(&s,1); CHECK(f==s.mem && b && b>=f+8 && b<s.mem+ns,"bistack-order","blocks of a fresh stack misplaced"); *f=*b=1; COUNT("used-again"); harbol_bistack_clear(&s); }
	vf_leak_check("bistack-leak"); if( nops<3 ) vf_trivial();
}
static void large_arena(uint64_t idx) { large=true; if( idx&1 ) region(idx); else bistack(idx); large=false; COUNT("large-arena"); }
/* arenas beyond 4 GiB (address space only: nearly all of it is never touched) */
#include <sys/mman.h>
static void vast(uint64_t idx) {
	size_t size=(((size_t)5)<<30)+vf_below(5000); size_t hole=((size_t)1<<32)+vf_below(1<<20); uint8_t *mem=mmap(NULL,size+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if( mem==MAP_FAILED ) { vf_trivial(); return; } vf_mix(size); vf_mix(hole); OP("vast %zu",size);
	struct HarbolBiStack s=harbol_bistack_make_from_buffer(mem,size); CHECK(harbol_bistack_get_margins(s)==size,"bistack-margins","fresh");
	uint8_t *a=harbol_bistack_alloc_front(&s,hole), *b=harbol_bistack_alloc_front(&s,100), *c=harbol_bistack_alloc_back(&s,100); CHECK(a==mem && b==mem+up8(hole),"bistack-order","front block at %zd",b-mem); CHECK(c && c+100<=mem+size && c>mem+size-120,"bistack-order","back block");
	CHECK(harbol_bistack_alloc_back(&s,hole)==NULL && harbol_bistack_alloc_front(&s,hole)==NULL && harbol_bistack_alloc_front(&s,size)==NULL,"bistack-granted","more granted than there is"); size_t m=harbol_bistack_get_margins(s); CHECK(m==(size_t)(c-b)-104,"bistack-margins","margins %zu",m);
	harbol_bistack_reset_front(&s); CHECK(harbol_bistack_get_margins(s)==(size_t)(c-mem),"bistack-margins","after reset_front"); uint8_t *d=harbol_bistack_alloc_back(&s,hole); CHECK(d && d+hole<=c && d+hole+8>c,"bistack-order","back block of %zu",hole); harbol_bistack_reset_back(&s); CHECK(harbol_bistack_get_margins(s)==size,"bistack-margins","after resets");
	/* a region zero-fills each block: only small blocks, at an offset above 4 GiB */
	struct HarbolRegion r=harbol_region_make_from_buffer(mem,size); CHECK(harbol_region_remaining(&r)==size,"region-remaining","fresh"); uint8_t *top=mem+size; for( int i=0; i<40; i++ ) { size_t n=1+vf_size(3000), rem=harbol_region_remaining(&r); uint8_t *p=harbol_region_alloc(&r,n); CHECK(p && p>=mem && p+n<=top && p+n+16>top,"region-order","block of %zu not directly below the previous one",n); top=p; CHECK(harbol_region_remaining(&r)==(size_t)(p-mem) && rem>(size_t)(p-mem),"region-remaining","%zu remaining",harbol_region_remaining(&r)); COUNT("granted"); }
	CHECK(harbol_region_alloc(&r,(size_t)(top-mem)+1)==NULL,"region-granted","more granted than there is");
	COUNT("beyond-4-GiB"); munmap(mem,size+4096); vf_leak_check("arena-leak");
}
struct vf_mode const vf_modes[] = { {"region", region}, {"bistack", bistack}, {"large", large_arena}, {"vast", vast}, {0} };
struct vf_probe const vf_probes[] = { {0} };
