/* C07: harbol_tuple layout against the C ABI rule and against structs laid out by the compiler itself. */
#include "vf.h"
#include <stddef.h>
#include "tuple/tuple.h"
#define MAXF 700
static size_t sz[MAXF], off[MAXF], nf, total; static uint8_t *val[MAXF];
/* --- structs laid out by the compiler: every combination of 4 scalar sizes --- */
typedef uint8_t T1; typedef uint16_t T2; typedef uint32_t T4; typedef uint64_t T8;
struct shape { uint8_t s[4]; uint8_t o[4]; uint8_t total; };
#define SHAPE(a,b,c,d) { {a,b,c,d}, { offsetof(struct{T##a x;T##b y;T##c z;T##d w;},x), offsetof(struct{T##a x;T##b y;T##c z;T##d w;},y), offsetof(struct{T##a x;T##b y;T##c z;T##d w;},z), offsetof(struct{T##a x;T##b y;T##c z;T##d w;},w) }, sizeof(struct{T##a x;T##b y;T##c z;T##d w;}) },
#define S3(a,b,c) SHAPE(a,b,c,1) SHAPE(a,b,c,2) SHAPE(a,b,c,4) SHAPE(a,b,c,8)
#define S2(a,b) S3(a,b,1) S3(a,b,2) S3(a,b,4) S3(a,b,8)
#define S1(a) S2(a,1) S2(a,2) S2(a,4) S2(a,8)
static struct shape const shapes[] = { S1(1) S1(2) S1(4) S1(8) };
static size_t up(size_t x, size_t a) { return (x+a-1)/a*a; }
static size_t base_of(struct HarbolTuple *t, size_t i) { uint8_t *p=harbol_tuple_get(t,i); CHECK(p!=NULL,"tuple-get","field %zu of %zu (size %zu) not accessible",i,nf,sz[i]); return (size_t)(p-t->datum); }
static void check_values(struct HarbolTuple *t, char const *after) {
	for( size_t i=0; i<nf; i++ ) if( val[i] && sz[i] ) CHECK(!memcmp(harbol_tuple_get(t,i),val[i],sz[i]),"tuple-value","after %s: field %zu (size %zu) changed",after,i,sz[i]);
}
static void layout(uint64_t idx) {
	bool packed=vf_chance(1,3), res=false; unsigned cls=(unsigned)vf_below(6); bool scalar = cls<3; struct shape const *sh=NULL;
	nf = vf_chance(1,30)? vf_range(30,40) : vf_chance(1,150)? vf_range(240,MAXF) : vf_range(1,12);
	if( cls==0 ) { sh=&shapes[vf_below(sizeof shapes/sizeof *shapes)]; packed=false; nf=vf_chance(1,4)? 4:4; for( size_t i=0; i<4; i++ ) sz[i]=sh->s[i]; }
	else for( size_t i=0; i<nf; i++ ) {
		if( cls==1 || cls==2 ) sz[i]=(size_t)1<<vf_below(4);
		else if( cls==3 ) sz[i]=vf_range(1,20);
		else if( cls==4 ) sz[i]= vf_chance(1,4)? vf_range(60000,200000) : vf_chance(1,3)? vf_range(1,300) : (size_t)1<<vf_below(4);
		else sz[i]= vf_chance(1,4)? 0 : (size_t)1<<vf_below(5);
	}
	bool zeros=false; size_t sum=0, big=1; for( size_t i=0; i<nf; i++ ) { vf_mix(sz[i]); sum+=sz[i]; if( sz[i]==0 ) zeros=true; if( sz[i]>big ) big=sz[i]; }
	vf_mix(packed); if( sum==0 ) { vf_trivial(); return; }
	char list[500]; size_t lp=0; list[0]=0; for( size_t i=0; i<nf && lp<450; i++ ) lp+=(size_t)snprintf(list+lp,sizeof list-lp,"%zu ",sz[i]);
	OP("tuple of sizes [%s] packed=%d",list,packed);
	struct HarbolTuple st={0}, *t=&st; unsigned kind=(unsigned)vf_below(3); size_t *szs=vf_exact_buf(sz,nf*sizeof *sz);
	if( kind==0 ) { t=harbol_tuple_new(nf,szs,packed); CHECK(t!=NULL,"tuple-new","constructor failed"); } else if( kind==1 ) { st=harbol_tuple_create(nf,szs,packed,&res); CHECK(res,"tuple-new","constructor failed"); } else CHECK(harbol_tuple_init(t,nf,szs,packed),"tuple-new","init failed");
	memset(szs,0xFF,nf*sizeof *szs); vf_xfree(szs);
	CHECK(harbol_tuple_fields(t)==nf,"tuple-fields","%zu fields reported, %zu given",harbol_tuple_fields(t),nf); CHECK(harbol_tuple_packed(t)==packed,"tuple-packed","packed flag lost");
	total=harbol_tuple_len(t); if( vf_ledger_has(t->datum) ) CHECK(vf_ledger_size(t->datum)>=total,"tuple-storage","total size %zu exceeds the storage of %zu",total,vf_ledger_size(t->datum));
	size_t prev=0, exp=0;
	for( size_t i=0; i<nf; i++ ) {
		CHECK(harbol_tuple_field_size(t,i)==sz[i],"tuple-field-size","field %zu has size %zu, expected %zu",i,harbol_tuple_field_size(t,i),sz[i]);
		if( sz[i]==0 ) continue;
		off[i]=base_of(t,i); CHECK(off[i]>=prev,"tuple-overlap","field %zu at %zu overlaps the previous one ending at %zu",i,off[i],prev); prev=off[i]+sz[i]; CHECK(prev<=total,"tuple-bounds","field %zu ends at %zu beyond the total size %zu",i,prev,total);
		if( packed ) { CHECK(off[i]==exp,"tuple-gap","packed field %zu at offset %zu, expected %zu",i,off[i],exp); exp+=sz[i]; }
		else if( scalar ) { exp=up(exp,sz[i]); CHECK(off[i]==exp,"tuple-offset","field %zu of size %zu at offset %zu, a C struct has it at %zu",i,sz[i],off[i],exp); exp+=sz[i]; }
		if( sh ) CHECK(off[i]==sh->o[i],"tuple-offset","field %zu at %zu, the compiler puts it at %u",i,off[i],sh->o[i]);
	}
	if( packed ) { CHECK(total==sum,"tuple-total","packed tuple of %zu bytes has total size %zu",sum,total); COUNT("packed"); }
	else if( scalar ) { CHECK(total==up(exp,big),"tuple-total","total size %zu, a C struct has %zu",total,up(exp,big)); COUNT("scalar-struct"); if( nf==1 ) COUNT("single-field"); }
	if( sh ) { CHECK(total==sh->total,"tuple-total","total size %zu, the compiler gives %u",total,sh->total); COUNT("compiler-struct"); }
	if( nf>255 ) COUNT("many-fields"); if( total>65535 ) COUNT("larger-than-64K"); if( zeros ) COUNT("zero-size-field"); if( !scalar && !packed ) COUNT("non-scalar-sizes");
	CHECK(harbol_tuple_get(t,nf)==NULL && harbol_tuple_get(t,nf+vf_below(5))==NULL && harbol_tuple_get(t,SIZE_MAX)==NULL && harbol_tuple_field_size(t,nf)==0,"tuple-range","field beyond the last one not refused");
	{ uint8_t junk[8]={0}; CHECK(harbol_tuple_set(t,nf+vf_below(3),junk)==NULL && harbol_tuple_set(t,SIZE_MAX,junk)==NULL,"tuple-range","write beyond the last field not refused"); }
	/* writes */
	memset(val,0,sizeof val); size_t w=vf_range(1,2*nf+4);
	for( size_t k=0; k<w; k++ ) { size_t i=vf_below(nf); if( !sz[i] ) continue; uint8_t *v=vf_xmalloc(sz[i]); vf_bytes(v,sz[i]); void *p=harbol_tuple_set(t,i,v); OP("set field %zu",i); vf_mix(i);
		CHECK(p==harbol_tuple_get(t,i) && p,"tuple-set","writing field %zu refused",i); if( val[i] ) { COUNT("rewritten"); vf_xfree(val[i]); } val[i]=vf_exact_buf(v,sz[i]); memset(v,0,sz[i]); vf_xfree(v); COUNT("written"); if( nf<16 || vf_chance(1,8) ) check_values(t,"set"); }
	check_values(t,"all writes");
	uint8_t *out=vf_xmalloc(total+16); memset(out,0xC3,total+16); CHECK(harbol_tuple_to_struct(t,out),"tuple-export","export failed");
	for( size_t i=0; i<nf; i++ ) if( val[i] ) CHECK(!memcmp(out+off[i],val[i],sz[i]),"tuple-export","exported field %zu differs",i);
	for( size_t i=0; i<16; i++ ) CHECK(out[total+i]==0xC3,"tuple-export","export wrote beyond the struct"); vf_xfree(out); check_values(t,"export");
	for( size_t i=0; i<nf; i++ ) vf_xfree(val[i]);
	if( kind==0 ) { harbol_tuple_free(&t); CHECK(t==NULL,"tuple-free","pointer not reset"); harbol_tuple_free(&t); } else { harbol_tuple_clear(t); CHECK(harbol_tuple_len(t)==0 && harbol_tuple_get(t,0)==NULL && !harbol_tuple_to_struct(t,list) && harbol_tuple_field_size(t,0)==0,"tuple-clear","cleared tuple still has fields"); harbol_tuple_clear(t); }
	vf_leak_check("tuple-leak");
}
/* more fields than 16 bits can count */
static void huge(uint64_t idx) {
	size_t N=vf_range(65540,120000); bool packed=vf_chance(1,2), res; size_t *s=vf_xmalloc(N*sizeof *s), o=0; for( size_t i=0; i<N; i++ ) s[i]=(size_t)1<<vf_below(4); OP("huge %zu packed=%d",N,packed); vf_mix(N); vf_mix(packed);
	struct HarbolTuple t=harbol_tuple_create(N,s,packed,&res); CHECK(res && harbol_tuple_fields(&t)==N,"tuple-new","constructor failed");
	for( size_t i=0; i<N; i++ ) { if( !packed ) o=up(o,s[i]); CHECK(base_of(&t,i)==o && harbol_tuple_field_size(&t,i)==s[i],"tuple-offset","field %zu of %zu misplaced",i,N); o+=s[i]; uint64_t v=i*UINT64_C(0x9e3779b97f4a7c15); CHECK(harbol_tuple_set(&t,i,&v),"tuple-set","refused"); }
	for( size_t i=0; i<N; i++ ) { uint64_t v=i*UINT64_C(0x9e3779b97f4a7c15); CHECK(!memcmp(harbol_tuple_get(&t,i),&v,s[i]),"tuple-value","field %zu of %zu changed",i,N); } CHECK(harbol_tuple_get(&t,N)==NULL,"tuple-range","field beyond the last");
	vf_xfree(s); COUNT("beyond-16-bit-count"); harbol_tuple_clear(&t); vf_leak_check("tuple-leak");
}
/* fields around every power of two from 64 KB to 16 MB */
static void vast(uint64_t idx) {
	size_t k=16+(size_t)(idx%9), big=((size_t)1<<k)+vf_below(3)-1; if( vf_chance(1,3) ) big+=65536*vf_below(4); size_t pre=vf_range(1,8), post=vf_range(1,40), sz[3]={pre,big,post}; bool packed=vf_chance(2,3), res=false; vf_mix(big); vf_mix(pre*100+post); OP("vast {%zu, %zu, %zu} packed=%d",pre,big,post,packed); vf_set_cpu_limit(60);
	struct HarbolTuple t=harbol_tuple_create(3,sz,packed,&res); CHECK(res && harbol_tuple_fields(&t)==3,"tuple-new","constructor failed for a field of %zu bytes",big); size_t total=harbol_tuple_len(&t); CHECK(packed? total==pre+big+post : total>=pre+big+post && total<=pre+big+post+48,"tuple-size","total %zu of {%zu, %zu, %zu}",total,pre,big,post); uint8_t *p[3];
	for( int i=0; i<3; i++ ) { CHECK(harbol_tuple_field_size(&t,(size_t)i)==sz[i],"tuple-size","field %d of %zu bytes says %zu",i,sz[i],harbol_tuple_field_size(&t,(size_t)i)); p[i]=harbol_tuple_get(&t,(size_t)i); CHECK(p[i] && p[i]>=p[0] && p[i]+sz[i]<=p[0]+total && (!i || p[i]>=p[i-1]+sz[i-1]),"tuple-offset","field %d lies outside or over another one",i); }
	uint8_t *v=vf_xmalloc(big); memset(v,0x5A,big); v[0]=1; v[big-1]=2; v[big/2]=3; memset(p[0],0xEE,pre); memset(p[2],0xDD,post); CHECK(harbol_tuple_set(&t,1,v)==p[1],"tuple-set","refused"); CHECK(!memcmp(p[1],v,big),"tuple-value","a field of %zu bytes was not written in full",big); for( size_t i=0; i<pre; i++ ) CHECK(p[0][i]==0xEE,"tuple-value","neighbour changed"); for( size_t i=0; i<post; i++ ) CHECK(p[2][i]==0xDD,"tuple-value","neighbour changed"); vf_xfree(v);
	COUNT("vast-field"); harbol_tuple_clear(&t); vf_leak_check("tuple-leak");
}
struct vf_mode const vf_modes[] = { {"vast", vast}, {"layout", layout}, {"huge", huge}, {0} };
struct vf_probe const vf_probes[] = { {0} };
