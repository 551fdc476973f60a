/* C09: harbol_variant against (bytes, size, tag). */
#include "vf.h"
#include "variant/variant.h"
#define NV 4
static struct m { bool heap, live; struct HarbolVariant st, *v; uint8_t b[70010]; size_t n; int32_t tag; } m[NV]; static bool large; static uint8_t b[70010];
static void verify(char const *after) {
	size_t blocks=0, bytes=0;
	for( int i=0; i<NV; i++ ) { struct m *x=&m[i]; if( !x->v ) continue; struct HarbolVariant *v=x->v; blocks+=x->heap; bytes+=x->heap? sizeof(struct HarbolVariant):0;
		if( !x->live ) { CHECK(harbol_variant_data(v)==NULL && harbol_variant_size(v)==0,"variant-empty","after %s: cleared variant still holds data",after); CHECK(harbol_variant_tag(v)==0,"variant-empty","after %s: cleared variant keeps tag %d",after,harbol_variant_tag(v)); continue; }
		blocks++; bytes+=x->n; uint8_t *p=harbol_variant_data(v); CHECK(p!=NULL,"variant-data","after %s: data lost",after); CHECK(harbol_variant_size(v)==x->n,"variant-size","after %s: size %zu, expected %zu",after,harbol_variant_size(v),x->n);
		CHECK(harbol_variant_tag(v)==x->tag,"variant-tag","after %s: tag %d, expected %d",after,harbol_variant_tag(v),x->tag); CHECK(!memcmp(p,x->b,x->n),"variant-data","after %s: bytes differ (size %zu)",after,x->n);
		for( int j=0; j<i; j++ ) if( m[j].v && m[j].live ) CHECK(harbol_variant_data(m[j].v)!=p,"variant-alias","after %s: two variants share storage",after); }
	CHECK(vf_ledger_live()==blocks,"variant-storage","after %s: %zu blocks allocated for %zu expected",after,vf_ledger_live(),blocks);
}
static size_t gen(uint8_t *b) { size_t n = large? 1+vf_size(vf_chance(1,6)? 70000:1500) : vf_chance(1,12)? vf_range(100,600) : vf_range(1,24); if( n>1000 ) COUNT("large-value"); vf_bytes(b,n); if( vf_chance(1,6) ) memset(b,0,n); return n; }
static void history(uint64_t idx) {
	for( int i=0; i<NV; i++ ) { m[i].v=NULL; m[i].live=m[i].heap=false; } size_t nops=vf_range(1,30); bool res=false;
	for( size_t o=0; o<nops; o++ ) {
		struct m *x=&m[vf_below(NV)]; unsigned op=(unsigned)vf_below(8); vf_mix(op); vf_mix((uint64_t)(x-m)); char const *nm="";
		if( !x->v ) { unsigned k=(unsigned)vf_below(3); size_t n=gen(b); int32_t tag=vf_chance(1,4)? (vf_chance(1,2)? INT32_MIN:INT32_MAX) : vf_chance(1,2)? (int32_t)(vf_rand()>>(33+vf_below(31)))*(vf_chance(1,2)? 1 : -1) : (int32_t)vf_rand(); void *src=vf_exact_buf(b,n); vf_mix(n);
			if( k==0 ) { x->v=harbol_variant_new(src,n,tag); x->heap=true; CHECK(x->v!=NULL,"variant-new","constructor failed"); } else if( k==1 ) { x->st=harbol_variant_make(src,n,tag,&res); CHECK(res,"variant-new","constructor failed"); x->v=&x->st; x->heap=false; } else { memset(&x->st,0,sizeof x->st); x->v=&x->st; x->heap=false; CHECK(harbol_variant_init(x->v,src,n,tag),"variant-new","init failed"); }
			memset(src,0x77,n); vf_xfree(src); memcpy(x->b,b,n); x->n=n; x->tag=tag; x->live=true; OP("v%d: construct(%u) size=%zu tag=%d",(int)(x-m),k,n,tag); nm="construction"; COUNT("constructed"); }
		else if( op<4 ) { size_t n=gen(b); if( x->live && vf_chance(1,3) ) n=x->n; void *src; bool self = x->live && vf_chance(1,8); if( self ) { n=vf_range(1,x->n); memcpy(b,x->b,n); src=harbol_variant_data(x->v); } else { vf_bytes(b,n); src=vf_exact_buf(b,n); }
			int32_t tag=harbol_variant_tag(x->v); CHECK(harbol_variant_set(x->v,src,n),"variant-set","refused"); if( !self ) { memset(src,0x77,n); vf_xfree(src); } else COUNT("set-from-own-data"); OP("v%d: set size %zu -> %zu",(int)(x-m),x->n,n); vf_mix(n); nm="set";
			if( x->live ) { if( n<x->n ) COUNT("set-shorter"); else if( n>x->n ) COUNT("set-longer"); else COUNT("set-same-size"); } else COUNT("set-after-clear");
			CHECK(harbol_variant_tag(x->v)==tag,"variant-tag","set changed the tag"); memcpy(x->b,b,n); x->n=n; if( !x->live ) x->tag=0; x->live=true; }
		else if( op==4 && x->live ) { size_t i=vf_below(x->n); ((uint8_t*)harbol_variant_data(x->v))[i]=x->b[i]=(uint8_t)vf_rand(); OP("v%d: poke",(int)(x-m)); nm="poke"; }
		else if( op==5 && !x->heap ) { harbol_variant_clear(x->v); x->live=false; OP("v%d: clear",(int)(x-m)); nm="clear"; COUNT("cleared"); if( vf_chance(1,2) ) harbol_variant_clear(x->v); }
		else if( op==6 && x->heap ) { harbol_variant_free(&x->v); CHECK(x->v==NULL,"variant-free","pointer not reset"); harbol_variant_free(&x->v); OP("v%d: free",(int)(x-m)); nm="free"; x->v=NULL; x->live=x->heap=false; COUNT("freed"); }
		verify(nm);
	}
	for( int i=0; i<NV; i++ ) if( m[i].v ) { if( m[i].heap ) harbol_variant_free(&m[i].v); else harbol_variant_clear(m[i].v); }
	vf_leak_check("variant-leak"); if( nops<3 ) vf_trivial();
}
static void history_large(uint64_t idx) { large=true; history(idx); large=false; }
struct vf_mode const vf_modes[] = { {"history", history}, {"large", history_large}, {0} };
struct vf_probe const vf_probes[] = { {0} };
