/* C18: any bytes given as a configuration: parsing ends, stays in bounds (sanitizers), leaks nothing, leaves the input alone, and gives the same result again. */
#include <ctype.h>
#include "cfgmodel.h"
#include "msg_sys/msg_sys.h"
static char *first_text; static size_t first_len;
static struct HarbolString dump(struct HarbolMap const *m) { struct HarbolString s=harbol_cfg_to_str(m); return s; }
/* structure of a result tree: every section a map, every string terminated at its length, no null storage */
static void walk(struct HarbolMap const *m, size_t d) {
	CHECK(m && d<600,"cfg-shape","section without a map, or nested %zu deep",d);
	for( size_t i=0; i<m->len; i++ ) { struct HarbolVariant const *v=(void const*)m->datum[i]; CHECK(v && m->datalens[i]==sizeof *v && v->data,"cfg-shape","entry %zu has no value",i); CHECK(m->keylens[i]>1 && m->keys[i][m->keylens[i]-1]==0,"cfg-shape","key of entry %zu is not terminated",i); size_t want=0;
		switch( v->tag ) { case HarbolCfgType_Null: case HarbolCfgType_Bool: want=1; break; case HarbolCfgType_Map: want=sizeof(void*); break; case HarbolCfgType_String: want=sizeof(void*); break; case HarbolCfgType_Float: want=sizeof(floatmax_t); break; case HarbolCfgType_Int: want=sizeof(intmax_t); break; case HarbolCfgType_Color: want=4; break; case HarbolCfgType_Vec4D: want=16; break; default: CHECK(0,"cfg-shape","entry %zu has type %d",i,v->tag); }
		CHECK(v->size==want,"cfg-shape","entry %zu of type %d has %zu bytes",i,v->tag,v->size); if( v->tag==HarbolCfgType_Map ) walk(*(struct HarbolMap**)v->data,d+1); if( v->tag==HarbolCfgType_String ) { struct HarbolString const *s=*(struct HarbolString**)v->data; CHECK(s,"cfg-shape","no string"); if( s->cstr ) { CHECK(s->cstr[s->len]==0,"cfg-shape","string of entry %zu is not terminated at its length",i); vf_mix(strlen(s->cstr)); } } COUNT("entry");
	}
}
#include <fcntl.h>
static size_t open_fds(void) { size_t n=0; for( int i=0; i<64; i++ ) n+=fcntl(i,F_GETFD)>=0; return n; }
static void one(char const *t, size_t n, bool file) {
	size_t fds=file? open_fds() : 0;
	char *y=vf_exact_str(t,n); struct HarbolString a={0}; size_t msgs=0; bool had=false;
	for( int round=0; round<2; round++ ) {
		msg_n=0; struct HarbolMap *m;
		if( file ) { FILE *f=fopen("s.cfg","wb"); if( !f || (n && fwrite(t,1,n,f)!=n) || fclose(f) ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } m=harbol_cfg_parse_file("s.cfg"); }
		else m=harbol_cfg_parse_cstr(y);
		CHECK(!memcmp(y,t,n+1),"cfg-source","the input changed"); if( m ) walk(m,0); struct HarbolString s={0}; if( m ) s=dump(m);
		if( round==0 ) { a=s; msgs=msg_n; had=m!=NULL; if( m && m->len ) COUNT("something-read"); if( msg_n ) COUNT("reported"); else COUNT("accepted"); }
		else { CHECK((m!=NULL)==had && msg_n==msgs && s.len==a.len && (s.len==0 || !memcmp(s.cstr,a.cstr,s.len)),"cfg-differs","parsing the same bytes again gave another result (%zu messages, then %zu)",msgs,msg_n); harbol_string_clear(&s); harbol_string_clear(&a); }
		if( m ) harbol_cfg_free(&m); if( file ) unlink("s.cfg");
	}
	if( file ) { CHECK(open_fds()==fds,"cfg-handle","the file was left open"); if( vf_chance(1,3) ) { /* things that open but can't be read */
		char const *odd=(char const*[]){".","/","/dev/null","no/such/file","s.cfg/"}[vf_below(5)]; char *yo=vf_exact_str(odd,strlen(odd)); OP("parse %s",odd); struct HarbolMap *m=harbol_cfg_parse_file(yo); if( m ) { walk(m,0); harbol_cfg_free(&m); } vf_xfree(yo); CHECK(open_fds()==fds,"cfg-handle","'%s' was left open",odd); COUNT("unreadable-file"); } }
	vf_leak_check("cfg-leak"); vf_xfree(y); (void)first_text; (void)first_len;
}
static char *T; static size_t tn, tc;
static void put(char c) { if( tn+2>tc ) { tc=tc? tc*2 : 4096; T=vf_xrealloc(T,tc); } T[tn++]=c; T[tn]=0; }
static void put_s(char const *s) { while( *s ) put(*s++); }
static void valid(size_t entries) { static long long li,le; struct gen g; memset(&g,0,sizeof g); li=le=0; g.li=&li; g.le=&le; g.budget=8; dclear(); struct node *top=m_new(HarbolCfgType_Map,"",0); g_section(&g,top,entries,true); m_free(top); tn=0; put(' '); tn=0; T[0]=0; for( size_t i=0; i<dlen; i++ ) put(doc[i]); }
static char rb(void) { static char const a[]="{}[]\"'<>:,#/*\\\n0x'.eEpPbuLcvtfni+-=?m "; return vf_chance(1,4)? (char)(1+vf_below(255)) : a[vf_below(sizeof a-1)]; }
static void mutated(uint64_t idx) {
	(void)idx; valid(vf_range(1,4)); size_t k=vf_range(1,4);
	for( size_t i=0; i<k; i++ ) { size_t p=vf_below(tn+1), l=vf_range(1,6);
		switch( vf_below(6) ) {
			case 0: if( p<tn ) T[p]=rb(); break;
			case 1: if( p+l<=tn ) { memmove(T+p,T+p+l,tn-p-l+1); tn-=l; } break;
			case 2: put(0); tn--; for( size_t j=0; j<l; j++ ) { put(0); memmove(T+p+1,T+p,tn-p-1); T[p]=rb(); T[tn]=0; } break;
			case 3: tn=p; put(' '); tn--; T[tn]=0; COUNT("truncated"); break;
			case 4: { size_t q=vf_below(tn+1); if( p+l<=tn && q+l<=tn ) memmove(T+p,T+q,l); break; }
			default: { char const *ins=(char const*[]){"<math ","<enum>","<ENUM>","<include>","\"<include>\"","{","}","/*","*/","\\","\"","'","c[","v[","-","0x","'\"","<FILE>","\\x","\\u12","\\777","<math (","1'","0b","iota","IOTA"}[vf_below(26)]; size_t m=strlen(ins); for( size_t j=0; j<m; j++ ) put(0); memmove(T+p+m,T+p,tn-m-p); memcpy(T+p,ins,m); T[tn]=0; }
		}
	}
	tn=strlen(T); vf_mix_bytes(T,tn); OP("parse %s",vf_quote(T,tn)); one(T,tn,false); COUNT("mutated"); if( !tn ) vf_trivial();
}
static void tokens(uint64_t idx) {
	(void)idx; tn=0; size_t k=vf_range(1,25); static char const *const tok[]={"\"a\"","'b'","\"\"","\"<include>\"","'nofile.cfg'","'<enum>'","'<ENUM>'","'<math 1+1>'","\"x<math\"","'<math'","'<math >y'","\"<math )>\"","{","}","[","]","c","v","c[1,2,3,4]","v[1 2 3 4]","c[","v[ ","true","false","null","iota","IOTA","1","-1","0x1F","0b1","017","1.5","1e5","-.5","+","-","1'0","<FILE>","<file>","<","// c\n","# c\n","/* c */","/*","\\","\n",",",":","'\\","\"\\x41\"","'\\u00e9'","\"\\777\"","99999999999999999999999999","1e99999","0x1p-99999","'<math 9^9^9^9>'","'<math -1e4000>'","'<math 1/0>'","'a.b'","\xff","'\xff\xfe'","v[1e99999]","c[-1 300]","v[99999999999999999999999999999999999999999999999]"};
	for( size_t i=0; i<k; i++ ) { put_s(tok[vf_below(sizeof tok/sizeof *tok)]); if( vf_chance(1,2) ) put(' '); }
	vf_mix_bytes(T,tn); OP("parse %s",vf_quote(T,tn)); one(T,tn,vf_chance(1,6)); COUNT("token-soup");
}
static void bytes(uint64_t idx) {
	(void)idx; tn=0; put(' '); tn=0; T[0]=0; size_t k=vf_below(40); bool nul=vf_chance(1,2), file=vf_chance(1,3); for( size_t i=0; i<k; i++ ) put(file && nul && vf_chance(1,8)? 0 : rb());
	vf_mix_bytes(T,tn); OP("parse %s%s",file? "file " : "",vf_quote(T,tn)); if( file ) { if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } COUNT("as-file"); } one(T,tn,file); COUNT("bytes"); if( !tn ) vf_trivial();
}
/* one piece repeated many times, within something that makes it one long lexeme, list, nesting or expression */
static void repeat(uint64_t idx) {
	(void)idx; tn=0; put(' '); tn=0; static char const *const pre[]={"","'k' ","'k' -","'k' v[","'k' c[","'","'k' \"","'k' '<math ","'<math ","'k' {","'a' 1 ","'<enum>","'k' 0x","'k' 0b","'k' 1.","'k' 1e","/*","//","'<include>' '"}, *const mid[]={"0","1","9","1 ","1.5 ","(","[","((1)+","1+","-","^2","a","\\x41","\\u00e9","\\377","\\","\\\n","{","'a'{","'a' {}","<enum>","<ENUM>","<math 1>","<math ","\n","\t"," ","*","/","//x\n","'","\"","1'","f","e5",".","true ","iota ","IOTA","\xff","\xc3\xa9","\r\n",",",":","ab<","sin("}, *const post[]={"","'","\"",">'","' 1","]","}"," ","*/","\n'z' 2",">\" 'z' 3"};
	size_t n=vf_chance(1,3)? vf_range(1,300) : vf_range(300,3000); char const *m1=mid[vf_below(sizeof mid/sizeof *mid)], *m2=vf_chance(1,4)? mid[vf_below(sizeof mid/sizeof *mid)] : m1, *p=pre[vf_below(sizeof pre/sizeof *pre)], *q=post[vf_below(sizeof post/sizeof *post)];
	#if !defined __has_feature
	if( vf_chance(1,8) ) n*=24;
	#endif
	put_s(p); for( size_t i=0; i<n; i++ ) put_s(i%2? m2 : m1); put_s(q); vf_mix_bytes(T,tn); OP("parse %s (%s %s)x%zu %s",vf_quote(p,strlen(p)),vf_quote(m1,strlen(m1)),m2==m1? "" : m2,n,vf_quote(q,strlen(q))); vf_set_cpu_limit(60); bool file=vf_chance(1,4); if( file && chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } one(T,tn,file); COUNT("repeated"); if( n>1000 ) COUNT("long-input"); if( n>40000 ) COUNT("very-long-input");
}
/* a valid document cut at every position */
static void cut(uint64_t idx) { (void)idx; valid(2); size_t n=tn; if( n>400 ) n=400; vf_mix_bytes(T,n); OP("cut everywhere: %s",vf_quote(T,n)); for( size_t i=0; i<=n; i++ ) { char *y=vf_exact_str(T,i); msg_n=0; struct HarbolMap *m=harbol_cfg_parse_cstr(y); if( m ) walk(m,0); harbol_cfg_free(&m); vf_xfree(y); COUNT("cut"); } vf_leak_check("cfg-leak"); if( !n ) vf_trivial(); }
/* several files of damaged text that include each other, themselves, and the same file again and again */
static void several(uint64_t idx) {
	(void)idx; if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } size_t n=vf_range(1,4); char fn[24], in[60]; vf_set_cpu_limit(60);
	for( size_t i=n+1; i-->0; ) { /* the last written is what one() parses */
		tn=0; put(' '); tn=0; size_t k=vf_range(1,10), incs=0; for( size_t j=0; j<k; j++ ) switch( vf_below(8) ) {
			case 0: case 1: case 2: { size_t to=i+1+vf_below(vf_chance(1,8)? 2 : n); if( vf_chance(1,20) ) to=i; if( to>n && vf_chance(7,8) ) to=n; if( to<=i && incs>1 ) break; incs++; if( vf_chance(1,4) ) snprintf(in,sizeof in,"'s%zu' { '<INCLUDE>': 'g%zu.cfg' }",j,to); else snprintf(in,sizeof in,"\"<include>\" 'g%zu.cfg' ",to); if( to==0 ) break; put_s(in); break; }
			case 3: put_s(vf_chance(1,3)? "'a' " : "'k"); snprintf(in,sizeof in,"%zu' {'x' 1} ",j); put_s(in); break;
			case 4: put_s((char const*[]){"'<enum>' iota ","'<ENUM>e' IOTA ","'f' <FILE> ","'<math 1+1>' 2.5 "}[vf_below(4)]); break;
			case 5: put_s((char const*[]){"'s","{","}","\"<include>\"","'<include>' {","'<include>' ''","'<include>' 'no.cfg' ","/*","'z' \"<math "}[vf_chance(1,2)? 6 : vf_below(9)]); break;
			default: snprintf(in,sizeof in,"'v%zu': '%zu' ",j,(size_t)vf_below(100)); put_s(in); }
		T[tn]=0; vf_mix_bytes(T,tn); OP("file %zu: %s",i,vf_quote(T,tn)); if( i ) { snprintf(fn,sizeof fn,"g%zu.cfg",i); FILE *f=fopen(fn,"wb"); if( !f || (tn && fwrite(T,1,tn,f)!=tn) || fclose(f) ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } } }
	one(T,tn,true); for( size_t i=1; i<=n; i++ ) { snprintf(fn,sizeof fn,"g%zu.cfg",i); unlink(fn); } COUNT("several-files"); if( !tn ) vf_trivial();
}
struct vf_mode const vf_modes[] = { {"mutated", mutated}, {"tokens", tokens}, {"bytes", bytes}, {"cut", cut}, {"repeat", repeat}, {"several", several}, {0} };
struct vf_probe const vf_probes[] = { {0} };
