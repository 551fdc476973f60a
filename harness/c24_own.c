/* C24: many objects of all modules alive together. Every block allocated while a call on object i runs belongs to i: no other
 * object may release it, nothing of it may remain once i is destroyed, and a call on i changes nothing another object shows. */
#include "mix.h"
int __real_harbol_write_msg(); int __wrap_harbol_write_msg() { return 0; }
enum { MAXO=25 };
static struct { struct obj o; bool live; uint64_t d; size_t calls; } S[MAXO];
static void here(void) { if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } }
static void make_file(size_t i) { char n[24]; snprintf(n,sizeof n,"f%zu",i); FILE *f=fopen(n,"wb"); for( size_t j=vf_below(200); f && j<=200; j++ ) fputc((int)vf_range(32,126),f); if( !f || fclose(f) ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } }
static void others(size_t n, size_t but, char const *what) { for( size_t j=0; j<n; j++ ) if( j!=but && S[j].live ) CHECK(mix_digest(&S[j].o)==S[j].d,"own-isolation","%s on object %zu (%s) changed object %zu (%s)",what,but,kind_name[S[but].o.k],j,kind_name[S[j].o.k]); }
static void create(size_t i, enum kind k) { vf_owner((unsigned)i+1); bool ok=mix_create(&S[i].o,k,vf_rand()); vf_owner(0); CHECK(ok,"own-create","a %s could not be created",kind_name[k]); if( S[i].o.k==K_STRING || S[i].o.k==K_BYTES || S[i].o.k==K_CFG ) snprintf(S[i].o.file,sizeof S[i].o.file,"f%zu",i); S[i].live=true; S[i].d=mix_digest(&S[i].o); S[i].calls=0; OP("create #%zu %s",i,kind_name[k]); vf_mix(k); COUNT("created"); }
static void destroy(size_t i) { bool twice=vf_chance(1,3); OP("destroy #%zu %s%s",i,kind_name[S[i].o.k],twice? " twice" : ""); vf_mix(1000+i); vf_owner((unsigned)i+1); mix_destroy(&S[i].o,twice); vf_owner(0); CHECK(vf_owner_live((unsigned)i+1)==0,"own-leak","%zu block(s) of object %zu (%s) remain after it was destroyed (%zu calls)",vf_owner_live((unsigned)i+1),i,kind_name[S[i].o.k],S[i].calls); S[i].live=false; COUNT("destroyed"); if( twice ) COUNT("destroyed-twice"); }
static void run(size_t n, enum kind only, size_t ops) {
	here(); for( size_t i=0; i<n; i++ ) make_file(i);
	for( size_t i=0; i<n; i++ ) create(i,only<K_COUNT? only : (enum kind)vf_below(K_COUNT));
	for( size_t o=0; o<ops; o++ ) {
		size_t i=vf_below(n);
		if( !S[i].live ) { create(i,only<K_COUNT? only : (enum kind)vf_below(K_COUNT)); others(n,i,"creation"); COUNT("recreated"); continue; }
		if( vf_chance(1,40) ) { destroy(i); others(n,i,"destruction"); continue; }
		uint64_t s=vf_rand(); vf_owner((unsigned)i+1); struct res r=mix_step(&S[i].o,s); vf_owner(0); S[i].calls++; OP("#%zu %s -> %d",i,r.name,r.ok); vf_mix(i); vf_mix_bytes(r.name,strlen(r.name)); COUNT("call"); if( strstr(r.name,"clear") ) COUNT("cleared");
		S[i].d=mix_digest(&S[i].o); others(n,i,r.name);
	}
	for( size_t left=n; left; left-- ) { size_t i=vf_below(n); while( !S[i].live ) { i=(i+1)%n; bool any=false; for( size_t j=0; j<n; j++ ) any|=S[j].live; if( !any ) break; } if( !S[i].live ) break; destroy(i); if( left%4==0 ) others(n,i,"destruction"); }
	vf_leak_check("own-leak"); if( ops<3 ) vf_trivial();
}
static void bag(uint64_t idx) { (void)idx; run(vf_range(2,MAXO),K_COUNT,vf_range(5,120)); }
static void single(uint64_t idx) { run(vf_range(1,4),(enum kind)(idx%K_COUNT),vf_range(5,150)); }
struct vf_mode const vf_modes[] = { {"bag", bag}, {"single", single}, {0} };
struct vf_probe const vf_probes[] = { {0} };
