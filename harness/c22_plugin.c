/* C22: plugin life cycle over real shared objects (their constructors and destructors report to the monitor) and directory scans
 * over generated directory trees. */
#define _GNU_SOURCE
#include "vf.h"
#include <sys/stat.h>
#include <fcntl.h>
#include "plugins/plugins.h"
enum { MODS=4, FILES=5, SLOTS=4 };
static int ups[MODS], downs[MODS], eups[MODS], edowns[MODS];
__attribute__((visibility("default"))) void vf_module_event(int id, int up) { if( up ) ups[id]++; else downs[id]++; }
static char *modb[MODS]; static size_t modn[MODS];
static void die(char const *s) { fprintf(stderr,"VF-HARNESS %s\n",s); _exit(3); }
static void prepare(void) { static bool done; if( chdir(vf_scratch()) ) die("chdir"); if( done ) return; done=true; mkdir("mods",0777);
	FILE *f=fopen("mods/m.c","w"); if( !f ) die("module source"); fputs("extern void vf_module_event(int,int); int plugin_id(void) { return ID; } int plugin_data=ID*7+1;\n__attribute__((constructor)) static void up(void) { vf_module_event(ID,1); }\n__attribute__((destructor)) static void down(void) { vf_module_event(ID,0); }\n",f); fclose(f);
	for( int i=0; i<MODS; i++ ) { char c[300]; snprintf(c,sizeof c,"gcc -shared -fPIC -DID=%d -o mods/m%d.so mods/m.c >mods/log 2>&1",i,i); if( system(c) ) die("cannot build plugin"); snprintf(c,sizeof c,"mods/m%d.so",i); f=fopen(c,"rb"); if( !f ) die("plugin file"); fseek(f,0,SEEK_END); modn[i]=(size_t)ftell(f); rewind(f); modb[i]=vf_xmalloc(modn[i]); if( fread(modb[i],1,modn[i],f)!=modn[i] ) die("plugin read"); fclose(f); } }
enum kind { ABSENT, MODULE, GARBAGE, DIRECTORY };
static struct file { enum kind k; int id; int version; time_t mtime; char rel[64], abs[700]; } F[FILES];
static struct slot { struct HarbolPlugin p; bool loaded, haspath; int f, id, version; time_t last; int err; char path[800]; } S[SLOTS];
static void wipe_file(int i) { unlink(F[i].rel); rmdir(F[i].rel); F[i].k=ABSENT; F[i].version++; }
static void set_mtime(int i) { struct timespec t[2]; F[i].mtime= F[i].mtime && vf_chance(1,2)? F[i].mtime+(time_t)vf_range(1,2)*(vf_chance(1,2)? 1 : -1) : 1500000000+(time_t)vf_below(1000000); if( vf_chance(1,10) ) { F[i].mtime=(time_t)vf_below(2)*(vf_chance(1,2)? 1 : 0x100000000); COUNT("odd-time"); } t[0].tv_sec=t[1].tv_sec=F[i].mtime; t[0].tv_nsec=t[1].tv_nsec=(long)vf_below(1000000000); if( utimensat(AT_FDCWD,F[i].rel,t,0) ) die("utimensat"); }
static void make_file(int i, enum kind k) { wipe_file(i); F[i].k=k; if( k==ABSENT ) return; if( k==DIRECTORY ) { if( mkdir(F[i].rel,0777) ) die("mkdir"); } else { FILE *f=fopen("tmp.new","wb"); if( !f ) die("write"); if( k==MODULE ) { F[i].id=(int)vf_below(MODS); if( fwrite(modb[F[i].id],1,modn[F[i].id],f)!=modn[F[i].id] ) die("write"); } else fputs(vf_chance(1,3)? "" : vf_chance(1,2)? "\x7f" "ELF nonsense" : "this is not a module",f); fclose(f); if( rename("tmp.new",F[i].rel) ) die("rename"); } set_mtime(i); }
static int holders(int f) { int n=0; for( int s=0; s<SLOTS; s++ ) n+=S[s].loaded && S[s].f==f; return n; }
static bool stale(int f) { for( int s=0; s<SLOTS; s++ ) if( S[s].loaded && S[s].f==f && S[s].version!=F[f].version ) return true; return false; }
static int live(int f, int version) { int n=0; for( int s=0; s<SLOTS; s++ ) n+=S[s].loaded && S[s].f==f && S[s].version==version; return n; }
/* callbacks */
static struct { struct HarbolPlugin *p; bool load, reloading; void *ud; int id; bool path; } log_[8]; static size_t logn; static struct slot *cur;
static void event(struct HarbolPlugin *p, void *ud, bool re, bool load) { CHECK(logn<8,"plugin-events","too many callbacks"); log_[logn].p=p; log_[logn].load=load; log_[logn].reloading=re; log_[logn].ud=ud; log_[logn].path=p->path && !strcmp(p->path,cur->path); int (*fn)(void)=(int(*)(void))(uintptr_t)harbol_plugin_get_obj(p,"plugin_id"); log_[logn].id=fn? fn() : -1; logn++; }
static void on_load(struct HarbolPlugin *p, void *ud, bool re) { event(p,ud,re,true); }
static void on_unload(struct HarbolPlugin *p, void *ud, bool re) { event(p,ud,re,false); }
static int cookie;
static void one_event(size_t i, struct slot *s, bool load, bool re, int id, char const *what) { CHECK(log_[i].p==&s->p && log_[i].load==load && log_[i].reloading==re && log_[i].ud==&cookie,"plugin-event","%s: %s callback with reloading=%d, expected %s with reloading=%d",what,log_[i].load? "load" : "unload",log_[i].reloading,load? "load" : "unload",re); CHECK(log_[i].id==id,"plugin-event-module","%s: the module seen in the %s callback is %d, expected %d",what,load? "load" : "unload",log_[i].id,id); CHECK(log_[i].path,"plugin-event-path","%s: path not available in the callback",what); }
static void module_up(int f) { if( live(f,F[f].version)==0 ) eups[F[f].id]++; }
static void module_down(struct slot *s) { s->loaded=false; if( live(s->f,s->version)==0 ) edowns[s->id]++; }
static void check(char const *what) { for( int i=0; i<MODS; i++ ) CHECK(ups[i]==eups[i] && downs[i]==edowns[i],"plugin-module","%s: module %d was started %d and stopped %d times, expected %d and %d",what,i,ups[i],downs[i],eups[i],edowns[i]);
	for( int i=0; i<SLOTS; i++ ) { struct slot *s=&S[i]; CHECK((s->p.dll!=NULL)==s->loaded && (s->p.path!=NULL)==s->haspath && (!s->haspath || !strcmp(s->p.path,s->path)),"plugin-state","%s: plugin %d %s loaded, path %s",what,i,s->p.dll? "is" : "is not",s->p.path? s->p.path : "NULL"); CHECK(s->p.err==s->err,"plugin-error","%s: plugin %d reports %s (%d), expected code %d",what,i,harbol_plugin_get_err(&s->p),s->p.err,s->err); if( s->haspath ) CHECK(s->p.last_write==s->last,"plugin-time","%s: recorded time differs",what); }
	size_t want=0; for( int i=0; i<SLOTS; i++ ) want+=S[i].haspath; CHECK(vf_ledger_live()==want,"plugin-memory","%s: %zu block(s) live, expected %zu",what,vf_ledger_live(),want); }
static void life(uint64_t idx) { (void)idx; prepare(); memset(S,0,sizeof S); memset(ups,0,sizeof ups); memset(downs,0,sizeof downs); memset(eups,0,sizeof eups); memset(edowns,0,sizeof edowns);
	for( int i=0; i<FILES; i++ ) { snprintf(F[i].rel,sizeof F[i].rel,"./pl%d.so",i); snprintf(F[i].abs,sizeof F[i].abs,"%s/pl%d.so",vf_scratch(),i); make_file(i,vf_chance(3,4)? MODULE : (enum kind)vf_below(4)); }
	size_t ops=vf_range(3,25); char what[900];
	{ int old=S[0].p.err; char const *tx[7]; for( int i=0; i<7; i++ ) { S[0].p.err=i<6? i : 99; tx[i]=harbol_plugin_get_err(&S[0].p); CHECK(tx[i] && *tx[i],"plugin-error-text","no text for error %d",i); for( int j=0; j<i; j++ ) CHECK(strcmp(tx[i],tx[j]),"plugin-error-text","errors %d and %d read alike",j,i); } S[0].p.err=old; }
	for( size_t o=0; o<ops; o++ ) { int i=(int)vf_below(SLOTS); struct slot *s=&S[i]; cur=s; logn=0; bool cb=vf_chance(7,8); int k=(int)vf_below(16); if( k>=7 && k<12 && !s->haspath && vf_chance(3,4) ) { for( int q=0; q<SLOTS && !s->haspath; q++ ) { i=(i+1)%SLOTS; s=&S[i]; } cur=s; } vf_mix((uint64_t)k*8+(uint64_t)i);
		if( k<4 ) { if( s->haspath ) continue; int f=(int)vf_below(FILES); if( stale(f) ) continue; bool sys=vf_chance(1,25); snprintf(s->path,sizeof s->path,"%s",sys? "libm.so.6" : vf_chance(1,2)? F[f].rel : F[f].abs); char *y=vf_exact_str(s->path,strlen(s->path)); bool e=!sys && F[f].k==MODULE; if( e ) module_up(f);
			s->loaded=s->haspath=e; if( e ) { s->f=f; s->id=F[f].id; s->version=F[f].version; s->last=F[f].mtime; } s->err=e? HarbolPluginErrNone : sys? HarbolPluginErrBadPath : HarbolPluginErrLibLoadFail; if( e && holders(f)>1 ) COUNT("shared-module");
			bool noroom=e && vf_chance(1,10); if( noroom ) vf_fail_at(1);
			bool r=harbol_plugin_load(&s->p,y,cb? on_load : NULL,&cookie); bool hit=noroom && vf_fail_hit(); vf_fail_at(0);
			if( hit && !r ) { /* nothing stays loaded, whether or not the module ran in between */ s->loaded=s->haspath=e=false; if( live(s->f,s->version)==0 ) { edowns[s->id]++; if( ups[s->id]==eups[s->id]-1 && downs[s->id]==edowns[s->id]-1 ) { eups[s->id]--; edowns[s->id]--; } } s->err=s->p.err; CHECK(s->err!=HarbolPluginErrNone,"plugin-error","a load that had no memory reports no error"); COUNT("load-without-memory"); } memset(y,'#',strlen(y)); vf_xfree(y); snprintf(what,sizeof what,"load(%d, %s)",i,s->path); OP("%s -> %d",what,r); CHECK(r==e,"plugin-verdict","%s returned %d, expected %d",what,r,e); CHECK(logn==(size_t)(e && cb),"plugin-event-count","%s ran %zu callback(s), expected %d",what,logn,e && cb); if( logn ) one_event(0,s,true,false,s->id,what); if( e ) COUNT("loaded"); else if( sys ) COUNT("system-name-refused"); else COUNT("load-refused"); }
		else if( k<7 ) { bool was=s->loaded; int id=s->id; snprintf(what,sizeof what,"clear(%d)",i); if( was ) module_down(s); s->haspath=false; s->err=0; s->last=0; harbol_plugin_clear(&s->p,cb? on_unload : NULL,&cookie); OP("%s",what); CHECK(logn==(size_t)(was && cb),"plugin-event-count","%s of a plugin that was %sloaded ran %zu callback(s)",what,was? "" : "not ",logn); if( logn ) CHECK(log_[0].p==&s->p && !log_[0].load && !log_[0].reloading && log_[0].ud==&cookie && log_[0].id==id && log_[0].path,"plugin-event","%s: wrong unload callback",what); if( was ) COUNT("unloaded"); else COUNT("cleared-empty"); }
		else if( k<9 ) { snprintf(what,sizeof what,"reload(%d)",i); bool was=s->loaded, e=false; int old=s->id; if( !s->haspath ) { s->err=HarbolPluginErrNoPath; }
			else { int f=s->f; if( was ) module_down(s); e=F[f].k==MODULE && !stale(f); if( F[f].k==MODULE && stale(f) ) { s->loaded=was; if( was ) { if( live(s->f,s->version)==1 ) edowns[s->id]--; } continue; } if( e ) { module_up(f); s->loaded=true; s->id=F[f].id; s->version=F[f].version; s->err=0; } else { if( holders(f) ) { s->loaded=was; if( was && live(s->f,s->version)==1 ) edowns[s->id]--; continue; } s->err=HarbolPluginErrCantReload; } }
			bool r=harbol_plugin_reload(&s->p,cb? on_load : NULL,cb? on_unload : NULL,&cookie); OP("%s -> %d",what,r); CHECK(r==e,"plugin-verdict","%s returned %d, expected %d",what,r,e); size_t en=cb? (size_t)was+(size_t)e : 0; CHECK(logn==en,"plugin-event-count","%s ran %zu callback(s), expected %zu",what,logn,en); size_t at=0; if( cb && was ) one_event(at++,s,false,true,old,what); if( cb && e ) one_event(at,s,true,true,s->id,what); if( e ) { COUNT("reloaded"); if( old!=s->id ) COUNT("reloaded-other-module"); if( !was ) COUNT("recovered"); } else if( s->haspath ) COUNT("reload-failed"); else COUNT("reload-refused"); }
		else if( k==9 ) { snprintf(what,sizeof what,"changed(%d)",i); bool e=false; if( !s->haspath ) s->err=HarbolPluginErrNoPath; else if( F[s->f].k!=ABSENT ) { e=s->last!=F[s->f].mtime; s->last=F[s->f].mtime; } bool r=harbol_plugin_changed(&s->p); OP("%s -> %d",what,r); CHECK(r==e,"plugin-changed","%s returned %d, expected %d",what,r,e); if( e ) COUNT("changed"); else COUNT("unchanged"); if( s->haspath ) CHECK(!harbol_plugin_changed(&s->p),"plugin-changed","reported as changed twice"); }
		else if( k<12 ) { bool absent=vf_chance(1,3), data=vf_chance(1,2); snprintf(what,sizeof what,"get_obj(%d)",i); void *p=harbol_plugin_get_obj(&s->p,absent? "no_such_symbol_here" : data? "plugin_data" : "plugin_id"); OP("%s %s -> %s",what,absent? "absent" : "present",p? "found" : "NULL"); s->err=s->loaded? 0 : HarbolPluginErrNoLibLoaded; CHECK((p!=NULL)==(s->loaded && !absent),"plugin-symbol","%s returned %s",what,p? "a symbol" : "nothing"); if( p ) { int v=data? *(int*)p : ((int(*)(void))(uintptr_t)p)(); CHECK(v==(data? s->id*7+1 : s->id),"plugin-symbol-value","%s belongs to another module (%d)",what,v); COUNT("symbol-found"); } else COUNT("symbol-absent"); }
		else { int f=(int)vf_below(FILES); if( holders(f)>1 ) continue; int c=(int)vf_below(5); snprintf(what,sizeof what,"change file %d",f); if( c==0 && F[f].k!=ABSENT ) { set_mtime(f); COUNT("touched"); } else if( c<4 ) make_file(f,MODULE); else make_file(f,(enum kind)vf_below(4)); OP("%s: kind %d module %d",what,F[f].k,F[f].id); COUNT("file-replaced"); }
		check(what); }
	for( int i=0; i<SLOTS; i++ ) { cur=&S[i]; if( S[i].loaded ) module_down(&S[i]); S[i].haspath=false; S[i].err=0; S[i].last=0; harbol_plugin_clear(&S[i].p,NULL,NULL); } check("end"); for( int i=0; i<MODS; i++ ) CHECK(ups[i]==downs[i],"plugin-module","module %d stays loaded",i); vf_leak_check("plugin-leak"); if( ops<3 ) vf_trivial(); }
/* directory scanning */
static struct ent { char path[4200], name[260]; bool maybe; int seen; } *E; static size_t en, ecap, extra;
static void expect_(char const *path, char const *name, bool maybe) { if( en==ecap ) E=vf_xrealloc(E,(ecap=ecap? ecap*2 : 64)*sizeof *E); memset(&E[en],0,sizeof *E); snprintf(E[en].path,sizeof E[en].path,"%s",path); snprintf(E[en].name,sizeof E[en].name,"%s",name); E[en].maybe=maybe; en++; }
static void on_file(char const *path, char const *name, void *ud) { CHECK(ud==&cookie,"plugin-dir","user data lost"); OP("  visited %s",path); for( size_t i=0; i<en; i++ ) if( !strcmp(E[i].path,path) ) { CHECK(!strcmp(E[i].name,name),"plugin-dir-name","%s is called %s",path,name); CHECK(++E[i].seen==1,"plugin-dir-twice","%s visited twice",path); COUNT("visited"); return; } extra++; vf_violation("plugin-dir-extra","%s (%s) visited, but it should not be",path,name); }
static char const *want_ext; static size_t budget, closed;
static void populate(char const *real, char const *shown, int depth) { /* real: path to create in, shown: path the scan should report */
	if( depth==0 && vf_chance(1,50) ) { size_t k=vf_range(100,700); for( size_t i=0; i<k; i++ ) { char nn[64], r[4300], s[4300]; bool m=vf_chance(2,3); snprintf(nn,sizeof nn,"many%zu.%s",i,m? want_ext : "other"); if( !strcmp(want_ext,"") && m ) snprintf(nn,sizeof nn,"many%zu",i); snprintf(r,sizeof r,"%s/%s",real,nn); snprintf(s,sizeof s,"%s/%s",shown,nn); int fd=open(r,O_CREAT|O_WRONLY|O_EXCL,0666); if( fd<0 ) die("many"); close(fd); if( m ) expect_(s,nn,false); } COUNT("crowded-directory"); }
	size_t n=vf_chance(1,8)? 0 : vf_range(1,6); for( size_t i=0; i<n && budget; i++ ) { budget--; char name[260], r[4300], s[4300]; static char const *const ex[]={".so",".dll",".txt","",".SO",".so.1",".tar.so",".s",".",".sox",".so~",".so2",".dlls",".txt1",".oso"}; size_t k=vf_chance(1,30)? vf_range(200,245) : vf_range(0,6); size_t w=0; for( size_t q=0; q<k; q++ ) name[w++]="abcXYZ01_- "[vf_below(11)]; w+=(size_t)sprintf(name+w,"%zu",budget); bool hidden=vf_chance(1,15); char nn[264]; snprintf(nn,sizeof nn,"%s%s%s",hidden? "." : "",name,vf_chance(1,2)? ".so" : ex[vf_below(sizeof ex/sizeof *ex)]); snprintf(r,sizeof r,"%s/%s",real,nn); snprintf(s,sizeof s,"%s/%s",shown,nn); if( strlen(nn)>255 || strlen(r)>3000 ) continue;
		char const *dot=strrchr(nn,'.'); char const *ext=dot? dot+1 : ""; bool match=!strcmp(ext,want_ext);
		if( vf_chance(1,4) && depth<(vf_chance(1,10)? 25 : 4) ) { if( mkdir(r,0777) ) continue; if( match ) COUNT("directory-with-extension"); if( hidden ) { COUNT("hidden-directory"); continue; } if( vf_chance(1,6) && depth<24 ) { char in[4400]; snprintf(in,sizeof in,"%s/in.so",r); int fd=open(in,O_CREAT|O_WRONLY,0666); if( fd>=0 ) close(fd); if( chmod(r,0) ) die("chmod"); closed++; COUNT("closed-directory"); continue; } populate(r,s,depth+1); COUNT("subdirectory"); }
		else if( vf_chance(1,12) ) { if( symlink(vf_chance(1,2)? "nowhere" : nn,r) ) continue; if( match ) expect_(s,nn,true); COUNT("dangling-link"); }
		else if( vf_chance(1,12) ) { if( symlink("/dev/null",r) ) continue; if( match ) expect_(s,nn,true); }
		else { int fd=open(r,O_CREAT|O_WRONLY|O_EXCL,0666); if( fd<0 ) continue; if( vf_chance(1,2) && write(fd,"x",1)!=1 ) die("write"); close(fd); if( match ) { expect_(s,nn,false); COUNT("matching"); if( !*want_ext ) COUNT("no-extension"); } else COUNT("other-file"); } } }
static void rmtree(char const *p) { char c[800]; snprintf(c,sizeof c,"%srm -rf -- '%s/%s'",geteuid()? "chmod -R u+rwX . ; " : "",vf_scratch(),p); if( system(c) ) die("cleanup"); }
static size_t open_fds(void) { size_t n=0; for( int i=0; i<200; i++ ) n+=fcntl(i,F_GETFD)>=0; return n; }
static void scan(uint64_t idx) { if( chdir(vf_scratch()) ) die("chdir"); en=extra=closed=0; budget=vf_chance(1,12)? 0 : vf_range(1,40); char dir[80], arg[100], shown[1024], real[1024]; snprintf(dir,sizeof dir,"d%llu",(unsigned long long)idx); if( mkdir(dir,0777) ) die("mkdir"); char const *custom=vf_chance(1,2)? NULL : (char const*[]){"so","txt","dll","","none"}[vf_below(5)]; want_ext=custom? custom : LIB_EXT;
	snprintf(real,sizeof real,"%s/%s",vf_scratch(),dir); snprintf(shown,sizeof shown,"%s",real); snprintf(arg,sizeof arg,"%s%s",dir,vf_chance(1,4)? "/" : ""); bool deep=vf_chance(1,40);
	if( deep ) { if( chdir(real) ) die("chdir"); char big[230]; memset(big,'L',200); strcpy(big+200,".d"); for( int i=0; i<22; i++ ) { int fd=open("far.so",O_CREAT|O_WRONLY,0666); if( fd<0 ) die("deep"); close(fd); size_t sl=strlen(real)+(size_t)i*203; if( sl+7<3900 ) { char *p=vf_xmalloc(5000); size_t w=(size_t)sprintf(p,"%s",real); for( int j=0; j<i; j++ ) w+=(size_t)sprintf(p+w,"/%s",big); strcpy(p+w,"/far.so"); expect_(p,"far.so",false); vf_xfree(p); } else { char *p=vf_xmalloc(6000); size_t w=(size_t)sprintf(p,"%s",real); for( int j=0; j<i; j++ ) w+=(size_t)sprintf(p+w,"/%s",big); strcpy(p+w,"/far.so"); if( strlen(p)<4190 ) expect_(p,"far.so",true); vf_xfree(p); } if( mkdir(big,0777) || chdir(big) ) die("deep"); } if( chdir(vf_scratch()) ) die("chdir"); if( strcmp(want_ext,"so") ) en=0; COUNT("path-too-long"); }
	else populate(real,shown,0);
	vf_mix(en); vf_mix_bytes(want_ext,strlen(want_ext)); for( size_t i=0; i<en; i++ ) vf_mix_bytes(E[i].name,strlen(E[i].name)); size_t fds=open_fds(); char *y=vf_exact_str(arg,strlen(arg)), *ye=custom? vf_exact_str(custom,strlen(custom)) : NULL; OP("scan(%s, %s): %zu file(s) expected",arg,custom? custom : "default",en); bool low = closed && geteuid()==0; if( low ) { if( seteuid(65534) ) die("seteuid"); if( faccessat(AT_FDCWD,real,R_OK|X_OK,AT_EACCESS) ) { if( seteuid(0) ) die("seteuid"); low=false; COUNT("scratch-not-traversable"); } else COUNT("unprivileged-scan"); } bool r=harbol_plugin_dir_open(y,on_file,&cookie,ye); if( low && seteuid(0) ) die("seteuid"); OP("scan -> %d",r); vf_xfree(y); vf_xfree(ye); CHECK(r,"plugin-dir","an existing directory was reported as failure"); for( size_t i=0; i<en; i++ ) CHECK(E[i].seen==1 || (E[i].maybe && !E[i].seen),"plugin-dir-missed","%s was not visited",E[i].path); CHECK(open_fds()==fds,"plugin-dir-fds","directory handles left open"); vf_leak_check("plugin-dir-leak"); if( !en ) COUNT("nothing-matches");
	if( vf_chance(1,4) ) { en=0; bool q=harbol_plugin_dir_open(vf_chance(1,2)? "no-such-dir" : "no/such/dir/",on_file,&cookie,custom); CHECK(!q,"plugin-dir-missing","a missing directory was reported as success"); CHECK(open_fds()==fds,"plugin-dir-fds","handles left open"); vf_leak_check("plugin-dir-leak"); COUNT("missing-directory"); }
	if( vf_chance(1,6) ) { char was[4096], gone[4200]; if( !getcwd(was,sizeof was) ) die("getcwd"); snprintf(gone,sizeof gone,"%s/gone",vf_scratch()); if( mkdir(gone,0700) || chdir(gone) || rmdir(gone) ) die("gone"); en=0; bool q=harbol_plugin_dir_open("x",on_file,&cookie,custom); if( chdir(was) ) die("chdir"); CHECK(!q,"plugin-dir-missing","scanning from a directory that no longer exists was reported as success"); CHECK(open_fds()==fds,"plugin-dir-fds","handles left open"); vf_leak_check("plugin-dir-leak"); COUNT("vanished-directory"); }
	rmtree(dir); if( !budget && en==0 ) vf_trivial(); }
struct vf_mode const vf_modes[]={{"life",life},{"scan",scan},{NULL,NULL}};
struct vf_probe const vf_probes[]={{NULL,NULL}};
