/* C23: every call is run on a twin while counting its allocation requests, then repeated on the object under test with the 1st, 2nd, ...
 * request failing (or all from it on). A refused call must leave the object exactly as it was; a call that reports success must
 * have done everything; afterwards the same call with memory available must give what the twin gave. */
#define _GNU_SOURCE
#include "mix.h"
#include <dlfcn.h>
#include <sys/stat.h>
#include "plugins/plugins.h"
int __real_harbol_write_msg(); int __wrap_harbol_write_msg() { return 0; }
static void here(void) { if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } }
static void make_file(void) { FILE *f=fopen("d.txt","wb"); size_t n=vf_range(1,200); for( size_t i=0; f && i<n; i++ ) fputc((int)vf_range(32,126),f); if( !f || fclose(f) ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } }
static void history_of(enum kind k) {
	here(); bool files=k==K_STRING || k==K_BYTES || k==K_CFG; if( files ) make_file();
	uint64_t cs=vf_rand(); struct obj a, b; size_t a0=vf_alloc_calls(); vf_mix(cs);
	if( !mix_create(&a,k,cs) ) CHECK(0,"oom-create","a %s could not be created although memory was available",kind_name[k]);
	size_t need=vf_alloc_calls()-a0; OP("create %s (%zu allocation(s))",kind_name[k],need);
	for( int from=0; from<2; from++ ) for( size_t n=1; n<=need; n++ ) {
		size_t live=vf_ledger_live(); mix_faulting=true; if( from ) vf_fail_from(n); else vf_fail_at(n); bool ok=mix_create(&b,k,cs); bool hit=vf_fail_hit(); vf_fail_at(0); mix_faulting=false;
		if( k==K_CFG || k==K_MSG ) { if( ok ) mix_destroy(&b,false); }
		else if( ok && !b.tainted ) { if( hit && mix_digest(&b)!=mix_digest(&a) ) CHECK(0,"oom-create","creating a %s reported success with allocation %zu%s failing, but it is not what it should be",kind_name[k],n,from? "+" : ""); mix_destroy(&b,false); }
		else if( ok ) mix_destroy(&b,false);
		else { harbol_array_clear(&b.aux_arr); harbol_string_clear(&b.aux_str); harbol_bytebuffer_clear(&b.aux_bb); COUNT("constructor-refused"); }
		CHECK(vf_ledger_live()==live,"oom-create-leak","creating a %s with allocation %zu%s failing left %zd block(s) behind",kind_name[k],n,from? "+" : "",(ssize_t)(vf_ledger_live()-live)); COUNT("constructor-fault");
	}
	if( !mix_create(&b,k,cs) ) CHECK(0,"oom-create","a %s could not be created although memory was available",kind_name[k]);
	if( files ) { strcpy(a.file,"d.txt"); strcpy(b.file,"d.txt"); }
	size_t ops=vf_range(1,40);
	for( size_t i=0; i<ops; i++ ) {
		uint64_t s=vf_rand(); size_t c0=vf_alloc_calls(); struct res rt=mix_step(&b,s); size_t k_=vf_alloc_calls()-c0; uint64_t want=mix_digest(&b); OP("%s -> %d (%zu allocation(s))",rt.name,rt.ok,k_); vf_mix_bytes(rt.name,strlen(rt.name)); vf_mix(rt.ok);
		bool done=false, cap=k==K_MSG || k==K_CFG; size_t lim=k_>60? 60 : k_;
		for( int from=0; from<2 && !done; from++ ) for( size_t j=1; j<=lim && !done; j++ ) {
			size_t n=k_>60? vf_range(1,k_) : j; uint64_t before=mix_digest(&a); size_t l1=vf_ledger_live();
			mix_faulting=true; if( from ) vf_fail_from(n); else vf_fail_at(n); struct res r=mix_step(&a,s); bool hit=vf_fail_hit(); vf_fail_at(0); mix_faulting=false;
			if( hit ) { COUNT("fault"); if( from ) COUNT("fault-all-from"); }
			if( !rt.strict ) { /* scanners, serialisers, diagnostics: nothing that existed changes */
				COUNT("fault-in-pure-call"); if( k==K_MSG ) { b.tainted=true; a.tainted=true; want=mix_digest(&b); done=true; rt.h=0; } else if( k==K_STRING ) { /* no way to report: may be complete or not have happened */ uint64_t now=mix_digest(&a); CHECK(now==before || now==want,"oom-half-done","%s with allocation %zu%s failing left the string half changed",rt.name,n,from? "+" : ""); if( now==want && want!=before ) done=true; }
				else { CHECK(mix_digest(&a)==before,"oom-changed","%s with allocation %zu%s failing changed the %s",rt.name,n,from? "+" : "",kind_name[k]); }
				if( !done && !cap ) CHECK(vf_ledger_live()<=l1,"oom-leak","%s with allocation %zu%s failing left %zd block(s) behind",rt.name,n,from? "+" : "",(ssize_t)(vf_ledger_live()-l1)); continue; }
			if( !r.ok && hit ) { COUNT("refused"); CHECK(mix_digest(&a)==before,"oom-changed","%s was refused when allocation %zu%s of %zu failed, but the %s is no longer what it was",rt.name,n,from? "+" : "",k_,kind_name[k]); }
			else { if( hit ) COUNT("completed-anyway"); CHECK(rt.ok==r.ok && mix_digest(&a)==want,"oom-success","%s reported success although allocation %zu%s of %zu failed and its effect is missing",rt.name,n,from? "+" : "",k_); done=true; }
		}
		if( !done ) { struct res r=mix_step(&a,s); CHECK(r.ok==rt.ok && r.h==rt.h,"oom-retry","%s repeated with memory available returned %d, without the failures %d (or another result)",rt.name,r.ok,rt.ok); if( lim ) COUNT("retried"); }
		CHECK(mix_digest(&a)==want,"oom-retry","after failures and a successful %s the %s differs from one that never met a failure",rt.name,kind_name[k]);
		COUNT("call"); if( ops<3 ) vf_trivial();
	}
	mix_destroy(&a,vf_chance(1,3)); mix_destroy(&b,false); vf_leak_check("oom-leak"); if( files ) unlink("d.txt");
	static char const *const cn[]={"k-map","k-array","k-deque","k-string","k-bytebuffer","k-tuple","k-tree","k-variant","k-bistack","k-region","k-objpool","k-mempool","k-config","k-diagnostics","k-formula","k-scanner","k-generator"}; vf_counter_add(vf_counter_id(cn[k]),1);
}
static void containers(uint64_t idx) { (void)idx; static enum kind const ks[]={K_MAP,K_ARRAY,K_DEQUE,K_STRING,K_BYTES,K_TUPLE,K_TREE,K_VARIANT,K_BISTACK,K_REGION,K_OBJPOOL,K_MEMPOOL,K_MAP,K_STRING,K_DEQUE,K_TREE}; history_of(ks[idx%16]); }
static void parsers(uint64_t idx) { static enum kind const ks[]={K_CFG,K_LEX,K_MSG,K_CFG,K_MATH}; history_of(ks[idx%5]); }
/* everything that reads or writes files, with every allocation request failing: no crash, nothing left allocated or open, existing objects
 * unchanged, and the same call works afterwards */
enum { F_MSG, F_CFG, F_BUILD, F_STRING, F_BYTES, F_RUNES, F_BUFFER, F_DIR, F_PLUGIN, F_COUNT };
static char const *const f_name[]={"msg_span_init(file)","cfg_parse_file","cfg_build_file","string_read_file","bytebuffer_insert_from_filename","runes_from_stream","make_buffer_from_file","plugin_dir_open","plugin_load"};
static char fdata[20000]; static size_t fn_; static struct HarbolMap *f_cfg; static struct HarbolString f_str; static struct HarbolByteBuf f_bb; static int f_variant; static char so_path[2000]; static uint64_t seen_h; static size_t seen_n, called;
static void on_file(char const path[], char const name[], void *ud) { (void)ud; (void)path; seen_h+=hb(7,name,strlen(name)); seen_n++; }
static void on_load(struct HarbolPlugin *const pl, void *const ud, bool const re) { (void)pl; (void)ud; (void)re; called++; }
static void wr(char const *f, char const *d, size_t n) { FILE *o=fopen(f,"wb"); if( !o || fwrite(d,1,n,o)!=n || fclose(o) ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } }
static uint64_t file_hash(char const *f) { FILE *o=fopen(f,"rb"); if( !o ) return 0; uint64_t h=1; char b[4096]; size_t n; while( (n=fread(b,1,sizeof b,o))>0 ) h=hb(h,b,n); fclose(o); return h; }
/* one call; *full: what it produced when it succeeded */
static bool f_call(int k, uint64_t *full) { bool ok=false; *full=0;
	switch( k ) {
	case F_MSG: { struct HarbolMsgSpan m={0}; ok=harbol_msg_span_init(&m,"d.txt",true,f_variant&1); if( ok ) { size_t n=harbol_msg_span_get_num_lines(&m); *full=hx(1,n); for( size_t i=0; i<n; i++ ) *full=hs(*full,harbol_msg_span_get_line(&m,i)); } harbol_msg_span_clear(&m); break; }
	case F_CFG: { struct HarbolMap *m=harbol_cfg_parse_file("d.cfg"); ok=m!=NULL; if( ok && !mix_faulting ) *full=cfg_digest(m,1,0); harbol_cfg_free(&m); break; }
	case F_BUILD: ok=harbol_cfg_build_file(f_cfg,"o.cfg",true); *full=ok? file_hash("o.cfg") : 0; break;
	case F_STRING: { FILE *f=NULL; if( f_variant&1 ) ok=harbol_string_read_file(&f_str,"d.txt"); else { f=fopen("d.txt","rb"); ok=f && harbol_string_read_from_file(&f_str,f); if( f ) fclose(f); } *full=hs(1,&f_str); break; }
	case F_BYTES: { if( f_variant&1 ) ok=harbol_bytebuffer_insert_from_filename(&f_bb,"d.txt"); else { FILE *f=fopen("d.txt","rb"); ok=f && harbol_bytebuffer_insert_from_file(&f_bb,f); if( f ) fclose(f); } *full=hb(1,f_bb.table? (void*)f_bb.table : "",f_bb.len); break; }
	case F_RUNES: { FILE *f=fopen("u.txt","rb"); size_t n=0; int32_t *r=runes_from_stream(f,&n); fclose(f); ok=r!=NULL; if( ok ) *full=hb(1,r,n*sizeof *r); free(r); break; }
	case F_BUFFER: { size_t n=0; uint8_t *b; if( f_variant%3==0 ) b=make_buffer_from_binary("d.txt",&n); else if( f_variant%3==1 ) b=(uint8_t*)make_buffer_from_text("d.txt",&n); else { FILE *f=fopen("d.txt","rb"); b=make_buffer_from_file(f,&n); fclose(f); } ok=b!=NULL; if( ok ) { CHECK(b[n]==0,"oom-file","buffer not terminated"); *full=hb(1,b,n); } free(b); break; }
	case F_DIR: seen_h=seen_n=0; ok=harbol_plugin_dir_open("pl",on_file,NULL,f_variant&1? "so" : "txt"); *full=hx(seen_h,seen_n); break;
	case F_PLUGIN: { struct HarbolPlugin p={0}; called=0; ok=harbol_plugin_load(&p,so_path,on_load,NULL); if( ok ) { CHECK(p.path && !strcmp(p.path,so_path) && p.dll,"oom-file","a loaded plugin has no path"); CHECK(called==1,"oom-file","load callback called %zu time(s)",called); *full=harbol_plugin_get_obj(&p,"harbol_no_such_symbol")==NULL; } else CHECK(!called && !p.dll && !p.path,"oom-file","a plugin that failed to load is half set up"); harbol_plugin_clear(&p,NULL,NULL); break; }
	} return ok; }
static void f_before(void) { harbol_string_clear(&f_str); harbol_bytebuffer_clear(&f_bb); if( f_variant&2 ) { harbol_string_copy_cstr(&f_str,"previous text"); harbol_bytebuffer_insert_cstr(&f_bb,"previous bytes"); } }
static void filesmode(uint64_t idx) { int k=(int)(idx%F_COUNT); here(); rng r={vf_rand()}; f_variant=(int)vf_below(6); memset(&f_str,0,sizeof f_str); memset(&f_bb,0,sizeof f_bb); f_cfg=NULL;
	fn_=vf_chance(1,6)? vf_range(1000,9000) : vf_range(1,200); for( size_t i=0; i<fn_; i++ ) fdata[i]=vf_chance(1,10)? '\n' : (char)vf_range(32,126); wr("d.txt",fdata,fn_); vf_mix_bytes(fdata,fn_); wr("u.txt","a\xce\xb1\xe2\x98\x83\xf0\x9f\x98\x80 end",15);
	if( k==F_CFG || k==F_BUILD ) { char *t=vf_xmalloc(42000); size_t n=gen_doc(&r,t); wr("i.cfg",t,n); n=(size_t)sprintf(t,"'first': 1\n"); if( vf_chance(1,2) ) n+=(size_t)sprintf(t+n,"\"<include>\": \"i.cfg\"\n"); n+=gen_doc(&r,t+n); wr("d.cfg",t,n); vf_mix_bytes(t,n); vf_xfree(t); }
	if( k==F_BUILD ) { f_cfg=harbol_cfg_parse_file("d.cfg"); if( !f_cfg ) { vf_trivial(); vf_leak_check("oom-file-leak"); return; } }
	if( k==F_DIR ) { mkdir("pl",0700); mkdir("pl/sub",0700); mkdir("pl/sub/deep",0700); wr("pl/a.so","x",1); wr("pl/b.txt","x",1); wr("pl/sub/c.so","x",1); wr("pl/sub/deep/d.so","x",1); wr("pl/sub/deep/e.txt","x",1); }
	if( k==F_PLUGIN ) { Dl_info in={0}; if( !dladdr((void*)(uintptr_t)&cosl,&in) || !in.dli_fname || in.dli_fname[0]!='/' ) { COUNT("no-library-path"); vf_trivial(); return; } snprintf(so_path,sizeof so_path,"%s",in.dli_fname); }
	f_before(); uint64_t h0=hs(1,&f_str), b0=hb(1,f_bb.table? (void*)f_bb.table : "",f_bb.len), want, c0=f_cfg? cfg_digest(f_cfg,1,0) : 0, got; size_t a0=vf_alloc_calls(); bool ok=f_call(k,&want); size_t need=vf_alloc_calls()-a0; OP("%s variant %d -> %d (%zu allocation(s))",f_name[k],f_variant,ok,need); vf_mix((uint64_t)k*10+(uint64_t)f_variant);
	f_before(); size_t live=vf_ledger_live(), lim=need>40? 40 : need;
	for( int from=0; from<2; from++ ) for( size_t j=1; j<=lim; j++ ) { size_t n=need>40? vf_range(1,need) : j; f_before(); mix_faulting=true; if( from ) vf_fail_from(n); else vf_fail_at(n); bool o=f_call(k,&got); bool hit=vf_fail_hit(); vf_fail_at(0); mix_faulting=false; if( !hit ) continue; COUNT("file-fault"); OP("  allocation %zu%s failing -> %d",n,from? "+" : "",o);
		if( o && (k==F_STRING || k==F_BYTES || k==F_RUNES || k==F_BUFFER || k==F_BUILD) ) CHECK(got==want,"oom-file-success","%s reported success although allocation %zu%s failed and its effect is missing",f_name[k],n,from? "+" : "");
		if( !o ) { COUNT("file-refused"); CHECK(hs(1,&f_str)==h0 && hb(1,f_bb.table? (void*)f_bb.table : "",f_bb.len)==b0,"oom-file-changed","%s was refused with allocation %zu%s failing but changed what was there before",f_name[k],n,from? "+" : ""); }
		if( f_cfg ) CHECK(cfg_digest(f_cfg,1,0)==c0,"oom-file-changed","%s changed the configuration",f_name[k]);
		f_before(); CHECK(vf_ledger_live()==live,"oom-file-leak","%s with allocation %zu%s failing left %zd block(s) behind",f_name[k],n,from? "+" : "",(ssize_t)(vf_ledger_live()-live)); }
	f_before(); bool o=f_call(k,&got); CHECK(o==ok && got==want,"oom-file-retry","after failures %s gives %d, before %d (or another result)",f_name[k],o,ok); COUNT("file-call");
	harbol_string_clear(&f_str); harbol_bytebuffer_clear(&f_bb); harbol_cfg_free(&f_cfg); unlink("d.txt"); unlink("u.txt"); unlink("i.cfg"); unlink("d.cfg"); unlink("o.cfg"); if( k==F_DIR ) { unlink("pl/a.so"); unlink("pl/b.txt"); unlink("pl/sub/c.so"); unlink("pl/sub/deep/d.so"); unlink("pl/sub/deep/e.txt"); rmdir("pl/sub/deep"); rmdir("pl/sub"); rmdir("pl"); } vf_leak_check("oom-file-leak"); }
struct vf_mode const vf_modes[] = { {"files", filesmode}, {"containers", containers}, {"parsers", parsers}, {0} };
struct vf_probe const vf_probes[] = { {0} };
