/* C28: the generator against an independently written recurrence; interleaved instances, regenerations, lazily seeded state, copies. */
#include "vf.h"
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
#include "mtwister/mtwister.h"
/* reference: produces word k of the sequence by the textbook recurrence over an unbounded history */
struct ref { uint64_t *h; size_t n, cap, pos; };
static void ref_seed(struct ref *r, uint64_t s) { r->n=624; r->cap=4096; r->h=vf_xmalloc(r->cap*8); r->pos=0; for( size_t i=0; i<624; i++, s*=6069 ) r->h[i]=s; }
static uint64_t ref_next(struct ref *r) {
	size_t k=r->n; if( k==r->cap ) { memmove(r->h,r->h+k-624,624*8); r->n=k=624; }
	uint64_t y=(r->h[k-624]&0x80000000u)|(r->h[k-623]&0x7fffffffu), x=r->h[k-227]^(y>>1)^((y&1)? 0x9908b0dfu : 0); r->h[r->n++]=x;
	x^=x>>11; x^=(x<<7)&0x9d2c5680u; x^=(x<<15)&0xefc60000u; x^=x>>18; r->pos++; return x; }
static size_t any_seed(void) { size_t s; switch( vf_below(7) ) { case 0: s=vf_below(10)+1; break; case 1: s=(size_t)1<<vf_below(64); break; case 2: s=SIZE_MAX-vf_below(3); break; case 3: s=4357; break; case 4: s=(uint32_t)vf_rand(); break; default: s=(size_t)vf_rand(); } return s? s : 1; }
static void sequence(uint64_t idx) { (void)idx; enum { G=3 }; struct MTRand *g[G]; struct ref r[G]; unsigned n=(unsigned)vf_range(1,G); bool lazy=false;
	for( unsigned i=0; i<n; i++ ) { g[i]=vf_exact_buf(&(struct MTRand){{0},0},sizeof(struct MTRand)); size_t s=any_seed(); unsigned how=(unsigned)vf_below(4);
		if( how==0 ) { memset(g[i],(int)vf_below(256),sizeof *g[i]); g[i]->index=STATE_VECTOR_LENGTH+1+vf_below(3); s=4357; lazy=true; COUNT("lazily-seeded"); } else if( how==1 ) _MT_SeedRand(g[i],s); else *g[i]=MT_SeedRand(s);
		OP("generator %u seed %zu%s",i,s,how==0?" (unseeded state)":""); vf_mix(s*4+how); ref_seed(&r[i],s); }
	size_t total=vf_chance(1,20)? vf_range(20000,60000) : vf_range(1,4500), burst=0; unsigned cur=0;
	for( size_t k=0; k<total; k++ ) { if( !burst ) { cur=(unsigned)vf_below(n); burst=vf_range(1,900); if( n>1 ) COUNT("switched"); } burst--;
		uint64_t w=ref_next(&r[cur]); if( vf_chance(1,8) ) { double f=MT_GenRand_F64(g[cur]); CHECK(f==(double)w/(double)SIZE_MAX,"rand-float","number %zu of generator %u is %.17g, expected %.17g",r[cur].pos,cur,f,(double)w/(double)SIZE_MAX); CHECK(f>=0 && f<=1,"rand-range","%.17g is outside 0..1",f); COUNT("float"); }
		else { size_t got=MT_GenRand_UInt(g[cur]); CHECK(got==w,"rand-word","number %zu of generator %u is %zu, expected %zu",r[cur].pos,cur,got,(size_t)w); COUNT("word"); }
		if( r[cur].pos%624==1 && r[cur].pos>1 ) COUNT("regenerated"); if( g[cur]->index>STATE_VECTOR_LENGTH ) vf_violation("rand-index","index %zu",g[cur]->index);
		if( vf_chance(1,3000) && n>1 ) { unsigned o=(cur+1)%n; *g[o]=*g[cur]; vf_xfree(r[o].h); r[o].h=vf_xmalloc(r[cur].cap*8); memcpy(r[o].h,r[cur].h,r[cur].n*8); r[o].n=r[cur].n; r[o].cap=r[cur].cap; r[o].pos=r[cur].pos; COUNT("copied"); }
		if( vf_chance(1,4000) ) { size_t s=any_seed(); _MT_SeedRand(g[cur],s); vf_xfree(r[cur].h); ref_seed(&r[cur],s); COUNT("reseeded"); } }
	if( lazy ) COUNT("lazy-case"); for( unsigned i=0; i<n; i++ ) { vf_xfree(g[i]); vf_xfree(r[i].h); } }
struct vf_mode const vf_modes[]={{"sequence",sequence},{NULL,NULL}};
struct vf_probe const vf_probes[]={{NULL,NULL}};
