/* C21: everything written by the diagnostic renderer and the message writer is captured and compared byte for byte with an
 * independent rendering of the same source, labels and notes; counters are followed. */
#include "vf.h"
#include <unistd.h>
#include "msg_span/msg_span.h"
#include "msg_sys/msg_sys.h"
static char src[600000], norm[2400000]; static size_t sn, nn; static size_t lstart[100000], lend[100000], lines;
static char out[80000000]; static size_t on;
static void put(char const *f, ...) { va_list a; va_start(a,f); int k=vsnprintf(out+on,sizeof out-on,f,a); va_end(a); if( k<0 || on+(size_t)k>=sizeof out ) { fprintf(stderr,"VF-HARNESS model output\n"); _exit(3); } on+=(size_t)k; }
static char const *const colors[]={COLOR_RED,COLOR_GREEN,COLOR_YELLOW,COLOR_BLUE,COLOR_MAGENTA,COLOR_CYAN,COLOR_WHITE};
static void normalise(void) { nn=0; for( size_t i=0; i<sn; i++ ) { if( src[i]=='\r' ) { norm[nn++]='\n'; if( src[i+1]=='\n' ) i++; } else if( src[i]=='\t' ) { memcpy(norm+nn,"    ",4); nn+=4; } else norm[nn++]=src[i]; } norm[nn]=0;
	lines=0; size_t a=0; for( size_t i=0; i<=nn; i++ ) if( i==nn || norm[i]=='\n' ) { lstart[lines]=a; lend[lines]=i; lines++; a=i+1; } }
static void gen_source(void) { sn=0; size_t want=vf_chance(1,12)? 0 : vf_chance(1,6)? vf_range(90,130) : vf_range(1,14); char const *eol=vf_chance(2,3)? "\n" : vf_chance(1,2)? "\r\n" : "\r"; bool mixed=vf_chance(1,6);
	for( size_t l=0; l<want; l++ ) { size_t k=vf_chance(1,4)? 0 : vf_below(30); for( size_t i=0; i<k; i++ ) switch( vf_below(12) ) { case 0: src[sn++]='\t'; break; case 1: src[sn++]=' '; break; case 2: memcpy(src+sn,"\xe2\x98\x9d",3); sn+=3; break; case 3: src[sn++]='%'; break; default: src[sn++]=(char)vf_range(33,126); }
		if( l+1<want || vf_chance(1,2) ) { char const *e=mixed? (char const*[]){"\n","\r\n","\r"}[vf_below(3)] : eol; memcpy(src+sn,e,strlen(e)); sn+=strlen(e); } }
	if( want==1 && vf_chance(1,2) ) { while( sn && (src[sn-1]=='\n' || src[sn-1]=='\r') ) sn--; }
	src[sn]=0; normalise(); }
static size_t digits(size_t x) { size_t d=1; while( x>9 ) { x/=10; d++; } return d; }
static void utf8(char *o, int32_t r) { size_t n=0; if( r<0x80 ) o[n++]=(char)r; else if( r<0x800 ) { o[n++]=(char)(0xc0|r>>6); o[n++]=(char)(0x80|(r&63)); } else if( r<0x10000 ) { o[n++]=(char)(0xe0|r>>12); o[n++]=(char)(0x80|(r>>6&63)); o[n++]=(char)(0x80|(r&63)); } else { o[n++]=(char)(0xf0|r>>18); o[n++]=(char)(0x80|(r>>12&63)); o[n++]=(char)(0x80|(r>>6&63)); o[n++]=(char)(0x80|(r&63)); } o[n]=0; }
struct lab { struct HarbolTokenSpan s; char const *sc,*mc; int32_t sym; char msg[400]; }; static struct lab L[72000]; static size_t ln;
static struct { char const *mc; char msg[400]; } N[72000]; static size_t notes_n;
static void rmsg(char *b) { size_t k=vf_chance(1,12)? 0 : vf_chance(1,12)? vf_range(100,380) : vf_below(40); for( size_t i=0; i<k; i++ ) b[i]=vf_chance(1,10)? '%' : (char)vf_range(32,126); b[k]=0; }
static char const *squote(void const *p) { return p? vf_quote(p,strlen(p)) : "NULL"; }
static void one_label(struct HarbolMsgSpan *m) { struct lab *x=&L[ln]; uint32_t a=(uint32_t)vf_range(1,lines), b=a+(vf_chance(1,3)? (uint32_t)vf_below(4) : 0); int odd=(int)vf_below(14);
	if( odd==0 ) { a=0; COUNT("span-line-zero"); } else if( odd==1 ) { b=(uint32_t)lines+(uint32_t)vf_range(1,3); COUNT("span-past-end"); } else if( odd==2 ) { a=(uint32_t)lines+1+(uint32_t)vf_below(200); b=a+(uint32_t)vf_below(3); COUNT("span-outside"); } else if( odd==3 ) { b=a-1; COUNT("span-reversed"); } else if( odd==4 && vf_chance(1,3) ) { b=UINT32_MAX-(uint32_t)vf_below(2); COUNT("span-huge"); } else if( b>lines ) b=(uint32_t)lines;
	uint32_t c=(uint32_t)vf_below(40), d=c+(uint32_t)vf_below(20); if( vf_chance(1,10) ) d=c; if( vf_chance(1,15) ) { d=(uint32_t)vf_below(c+1); COUNT("columns-reversed"); } if( d==c ) COUNT("zero-width"); if( vf_chance(1,40) ) { c=(uint32_t)vf_range(100,2000); d=c+(uint32_t)vf_below(300); }
	x->s=(struct HarbolTokenSpan){a,b,c,d}; x->sc=vf_chance(1,4)? NULL : colors[vf_below(7)]; x->mc=vf_chance(1,4)? NULL : colors[vf_below(7)]; x->sym=vf_chance(1,3)? (int32_t[]){0x261d,0xa7,0x1f600,0x7ff,0x800,0xffff,0x10000}[vf_below(7)] : (int32_t)vf_range(33,126); rmsg(x->msg); int num=(int)vf_rand()%1000; char t[400]; strcpy(t,x->msg); bool fmt=vf_chance(1,2);
	bool r=fmt? harbol_msg_span_add_label(m,x->s,x->sc,x->sym,x->mc,"%s <%d>",t,num) : harbol_msg_span_add_label(m,x->s,x->sc,x->sym,x->mc,"%s",t); memset(t,'#',sizeof t); if( fmt ) sprintf(x->msg+strlen(x->msg)," <%d>",num);
	OP("add_label({%u,%u,%u,%u}, %s, U+%04x, %s, %s) -> %d",a,b,c,d,squote(x->sc),x->sym,squote(x->mc),squote(x->msg),r); CHECK(r,"msg-label","label refused"); vf_mix(a*31u+b); vf_mix(c*31u+d); ln++; COUNT("label"); }
static void one_note(struct HarbolMsgSpan *m) { N[notes_n].mc=vf_chance(1,4)? NULL : colors[vf_below(7)]; rmsg(N[notes_n].msg); bool r=harbol_msg_span_add_note(m,N[notes_n].mc,"%s",N[notes_n].msg); OP("add_note(%s, %s) -> %d",squote(N[notes_n].mc),squote(N[notes_n].msg),r); CHECK(r,"msg-note","note refused"); vf_mix_bytes(N[notes_n].msg,strlen(N[notes_n].msg)); notes_n++; COUNT("note"); }
static void render(void) { if( !ln && !notes_n ) return; uint32_t big=0; for( size_t i=0; i<ln; i++ ) if( L[i].s.line_end>big ) big=L[i].s.line_end; int w=(int)digits(big)+1; put("\n%*s|\n",w,"");
	for( size_t i=0; i<ln; i++ ) { struct lab *x=&L[i]; for( size_t l=x->s.line_start<1? 1 : x->s.line_start; l<=x->s.line_end && l<=lines; l++ ) { put("%-*zu|%.*s\n",w,l,(int)(lend[l-1]-lstart[l-1]),norm+lstart[l-1]); COUNT("line-shown"); }
		put("%*s|%*s%s",w,"",(int)x->s.colm_start,"",x->sc? x->sc : ""); char u[8]; utf8(u,x->sym); for( uint32_t c=x->s.colm_start; c<x->s.colm_end; c++ ) put("%s",u); put("%s %s%s%s\n",COLOR_RESET,x->mc? x->mc : "",x->msg,x->mc? COLOR_RESET : ""); }
	if( notes_n ) put("%*s|\n",w,""); for( size_t i=0; i<notes_n; i++ ) put("%*s%s%s%s\n",w,"",N[i].mc? N[i].mc : "",N[i].msg,N[i].mc? COLOR_RESET : ""); ln=notes_n=0; }
static void same(char const *got, size_t gn, char const *what) { size_t i=0; while( i<gn && i<on && got[i]==out[i] ) i++; size_t a=i>40? i-40 : 0; CHECK(gn==on && i==on,"msg-output","%s: written %zu byte(s), expected %zu; they differ at %zu: %s vs %s",what,gn,on,i,vf_quote(got+a,gn-a>100? 100 : gn-a),vf_quote(out+a,on-a>100? 100 : on-a)); }
static void check_lines(struct HarbolMsgSpan *m, bool freed) { CHECK(harbol_msg_span_get_num_lines(m)==lines,"msg-lines","%zu lines, expected %zu",harbol_msg_span_get_num_lines(m),lines);
	for( size_t i=0; i<lines; i++ ) { struct HarbolString const *s=harbol_msg_span_get_line(m,i); size_t k=lend[i]-lstart[i]; CHECK(s && s->len==k && (!k || (s->cstr && !memcmp(s->cstr,norm+lstart[i],k) && s->cstr[k]==0)),"msg-line","line %zu is %s, expected %s",i,s? vf_quote(s->cstr,s->cstr? s->len : 0) : "absent",vf_quote(norm+lstart[i],k)); }
	CHECK(!harbol_msg_span_get_line(m,lines) && !harbol_msg_span_get_line(m,SIZE_MAX) && !harbol_msg_span_get_line(m,lines+vf_below(1000)),"msg-line","a line past the end was returned");
	struct HarbolString const *c=harbol_msg_span_get_code(m); CHECK(c && (freed? c->cstr==NULL : c->len==nn && (!nn || !memcmp(c->cstr,norm,nn))),"msg-code","source is %s, expected %s",vf_quote(c->cstr,c->cstr? c->len : 0),freed? "released" : vf_quote(norm,nn)); }
static uint32_t anypos(void) { return vf_chance(1,2)? (uint32_t)vf_below(300) : vf_chance(1,2)? (uint32_t)vf_rand() : (uint32_t)(((uint64_t)1<<vf_below(33))-vf_below(2)); }
static void emit(struct HarbolMsgSpan *m, size_t *cnt, size_t *ecnt) { char *got=NULL; size_t gn=0; FILE *f=open_memstream(&got,&gn); on=0;
	char const *fn=vf_chance(1,4)? NULL : "dir/a%d.c", *ty=vf_chance(1,5)? NULL : (char const*[]){"error","warning","note",""}[vf_below(4)], *code=vf_chance(1,2)? NULL : "E0001", *col=colors[vf_below(7)]; static char rfn[400], rty[400], rcode[400]; if( fn && vf_chance(1,2) ) { rmsg(rfn); fn=rfn; } if( ty && vf_chance(1,3) ) { rmsg(rty); ty=rty; } if( code && vf_chance(1,2) ) { rmsg(rcode); code=rcode; } uint32_t l=anypos(), c=vf_chance(1,6)? l : anypos(), *pl=vf_chance(1,4)? NULL : &l, *pc=vf_chance(1,4)? NULL : &c; char t[400]; rmsg(t); bool count=vf_chance(3,4); int k=(int)vf_below(100000);
	harbol_msg_span_emit_to_stream(m,count? cnt : NULL,f,fn,ty,code,col,pl,pc,"%s/%d",t,k); fclose(f); if( count ) { ++*ecnt; COUNT("counted"); }
	if( ty ) { put("%s%s",col,ty); if( code ) put("[%s]",code); put("%s: ",COLOR_RESET); } put("%s/%d",t,k); if( fn ) { put("\n--> %s",fn); if( pl ) put(":%u",l); if( pc ) put(":%u",c); }
	if( !ln && notes_n ) COUNT("notes-only"); if( !ln && !notes_n ) COUNT("bare"); size_t el=ln; render(); OP("emit(%s, %s, %s) of %zu label(s) -> %zu byte(s)",squote(fn),squote(ty),squote(code),el,gn); same(got,gn,"diagnostic"); free(got); CHECK(*cnt==*ecnt,"msg-count","counter is %zu, expected %zu",*cnt,*ecnt); CHECK(m->labels.len==0 && m->notes.len==0,"msg-kept","labels or notes remain after being shown"); COUNT("emitted"); }
static void span(uint64_t idx) { (void)idx; if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } gen_source(); vf_mix_bytes(src,sn); OP("source %s",vf_quote(src,sn)); bool file=vf_chance(1,4), freed=vf_chance(1,2), res=false; struct HarbolMsgSpan m; ln=notes_n=0;
	if( file ) { FILE *f=fopen("src.txt","wb"); if( !f || fwrite(src,1,sn,f)!=sn || fclose(f) ) { fprintf(stderr,"VF-HARNESS file\n"); _exit(3); } m=harbol_msg_span_make("src.txt",true,freed,&res); OP("make(file) -> %d",res); if( !sn && !res ) { COUNT("empty-file-refused"); harbol_msg_span_clear(&m); vf_leak_check("msg-leak"); return; } CHECK(m.src.filename.len==7 && !strcmp(m.src.filename.cstr,"src.txt"),"msg-filename","file name not kept"); COUNT("from-file"); }
	else { char *y=vf_exact_str(src,sn); m=harbol_msg_span_make(y,false,freed,&res); OP("make(text) -> %d",res); memset(y,'#',sn); vf_xfree(y); }
	CHECK(res,"msg-init","source refused"); if( !sn ) COUNT("empty-source"); if( sn && lend[lines-1]!=lstart[lines-1] ) COUNT("no-final-newline"); if( lines==1 && sn ) COUNT("single-line"); check_lines(&m,freed);
	size_t cnt=vf_chance(1,8)? (vf_chance(1,2)? (size_t)UINT32_MAX-vf_below(2) : SIZE_MAX-vf_below(2)) : vf_below(5), ecnt=cnt; for( size_t k=vf_range(1,3); k--; ) { size_t want=vf_chance(1,30)? vf_range(60,150) : vf_chance(1,8)? vf_range(5,40) : vf_below(5); while( ln<want ) one_label(&m); for( size_t q=vf_chance(1,2)? 0 : vf_range(1,5); q--; ) one_note(&m); if( vf_chance(1,10) ) { size_t wn=vf_range(5,60); while( notes_n<wn ) one_note(&m); } emit(&m,&cnt,&ecnt); check_lines(&m,freed); }
	if( vf_chance(1,2) ) { for( size_t q=vf_below(4); q--; ) one_label(&m); for( size_t q=vf_below(3); q--; ) one_note(&m); COUNT("cleared-unshown"); }
	harbol_msg_span_clear(&m); CHECK(harbol_msg_span_get_num_lines(&m)==0 && !harbol_msg_span_get_line(&m,0),"msg-clear","lines remain"); if( vf_chance(1,2) ) harbol_msg_span_clear(&m);
	if( vf_chance(1,6) ) { struct HarbolMsgSpan z={0}; bool r=harbol_msg_span_init(&z,"no-such-file",true,freed); OP("init(missing file) -> %d",r); CHECK(!r,"msg-missing","a missing file was accepted"); harbol_msg_span_clear(&z); COUNT("missing-file"); }
	if( vf_chance(1,4) ) { struct HarbolTokenSpan a={(uint32_t)vf_below(50),(uint32_t)vf_below(50),(uint32_t)vf_below(50),(uint32_t)vf_below(50)}, b={(uint32_t)vf_rand(),(uint32_t)vf_below(50),(uint32_t)vf_below(50),(uint32_t)vf_rand()}, c=harbol_token_span_merge(a,b);
		#define MIN(x,y) ((x)<(y)? (x) : (y))
		#define MAX(x,y) ((x)>(y)? (x) : (y))
		CHECK(c.line_start==MIN(a.line_start,b.line_start) && c.line_end==MAX(a.line_end,b.line_end) && c.colm_start==MIN(a.colm_start,b.colm_start) && c.colm_end==MAX(a.colm_end,b.colm_end),"msg-merge","merged span does not cover both"); COUNT("merged"); }
	vf_leak_check("msg-leak"); if( ln ) ln=0; }
/* arbitrary bytes as source (through a file, so NULs included): only memory safety and termination are judged */
static void bytes(uint64_t idx) { (void)idx; if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } sn=vf_below(200); for( size_t i=0; i<sn; i++ ) src[i]=vf_chance(1,3)? "\n\r\t\0 a"[vf_below(6)] : (char)vf_rand(); src[sn]=0; vf_mix_bytes(src,sn); OP("bytes %s",vf_quote(src,sn)); FILE *f=fopen("src.bin","wb"); if( !f || fwrite(src,1,sn,f)!=sn || fclose(f) ) { fprintf(stderr,"VF-HARNESS file\n"); _exit(3); }
	struct HarbolMsgSpan m={0}; bool r=harbol_msg_span_init(&m,"src.bin",true,vf_chance(1,2)); OP("init -> %d, %zu line(s)",r,r? harbol_msg_span_get_num_lines(&m) : 0); CHECK(r==(sn>0),"msg-init","a readable file of %zu byte(s) gave %d",sn,r); if( sn && !src[0] ) COUNT("starts-with-nul"); if( r ) { lines=harbol_msg_span_get_num_lines(&m); ln=notes_n=0; for( size_t k=vf_range(1,4); k--; ) one_label(&m); char *got=NULL; size_t gn=0; FILE *o=open_memstream(&got,&gn); harbol_msg_span_emit_to_stream(&m,NULL,o,NULL,"x",NULL,COLOR_RED,NULL,NULL,"m"); fclose(o); CHECK(gn>0,"msg-output","nothing written"); free(got); COUNT("bytes"); if( sn && memchr(src,0,sn) ) COUNT("with-nul"); }
	harbol_msg_span_clear(&m); vf_leak_check("msg-leak"); if( !sn ) vf_trivial(); }
static void message(uint64_t idx) { (void)idx; char *got=NULL; size_t gn=0; FILE *f=open_memstream(&got,&gn); on=0; size_t cnt[2]={vf_below(3),SIZE_MAX-vf_below(2)}, e[2]={cnt[0],cnt[1]}; size_t k=vf_range(1,8);
	for( size_t i=0; i<k; i++ ) { char const *fn=vf_chance(1,3)? NULL : (char const*[]){"a.cfg","","x%sy"}[vf_below(3)], *ty=(char const*[]){"Error","Warning","Note","","%d"}[vf_below(5)], *col=vf_chance(1,8)? "" : colors[vf_below(7)]; uint32_t l=(uint32_t)vf_rand(), c=(uint32_t)vf_below(300), *pl=vf_chance(1,3)? NULL : &l, *pc=vf_chance(1,3)? NULL : &c; char t[400]; rmsg(t); int which=(int)vf_below(3); long long n=(long long)vf_rand();
		harbol_write_msg(which<2? &cnt[which] : NULL,f,fn,ty,col,pl,pc,"%s|%lld|%c",t,n,'z'); if( which<2 ) e[which]++; if( fn ) { put("(%s",fn); if( pl ) put(":%u",l); if( pc ) put(":%u",c); put(") "); } put("%s%s%s: **** %s|%lld|%c ****\n",col,ty,COLOR_RESET,t,n,'z'); OP("write_msg(%s, %s, %s)",squote(fn),squote(ty),squote(t)); vf_mix_bytes(t,strlen(t)); vf_mix((uint64_t)n); CHECK(cnt[0]==e[0] && cnt[1]==e[1],"msg-count","counters %zu/%zu, expected %zu/%zu",cnt[0],cnt[1],e[0],e[1]); COUNT("message"); if( !fn ) COUNT("no-file"); }
	fclose(f); same(got,gn,"messages"); free(got);
	/* a stream that refuses what it is given: the message is lost, the count is not */
	if( vf_chance(1,4) ) { f=fopen(vf_chance(1,2)? "/dev/null" : "/proc/self/exe","rb"); if( !f ) { fprintf(stderr,"VF-HARNESS stream\n"); _exit(3); } size_t c=vf_below(9), c0=c; for( size_t i=vf_range(1,4); i--; ) { harbol_write_msg(&c,f,vf_chance(1,2)? "a" : NULL,"Error",COLOR_RED,NULL,NULL,"%d",7); CHECK(c==++c0,"msg-count","counter is %zu, expected %zu, on a stream that cannot be written",c,c0); } fclose(f); COUNT("unwritable-stream"); }
	vf_leak_check("msg-leak"); }
/* sources of a thousand to seventy thousand lines, or with lines longer than 64K; spans over many lines, hundreds of labels and notes */
static void gen_large(void) { sn=0; size_t want=0; int kind=(int)vf_below(4); char const *eol=vf_chance(2,3)? "\n" : vf_chance(1,2)? "\r\n" : "\r"; if( kind==0 ) { want=vf_range(900,1100); COUNT("thousand-lines"); } else if( kind==1 ) { want=vf_range(9900,10100); COUNT("ten-thousand-lines"); } else if( kind==2 ) { want=vf_range(65400,70000); COUNT("lines-64k"); } else { want=vf_range(1,4); COUNT("line-64k"); }
	size_t n=0; for( size_t l=0; l<want; l++ ) { size_t k=kind==3? vf_range(64000,90000) : vf_chance(1,3)? 0 : vf_below(6); for( size_t i=0; i<k; i++ ) src[sn++]= vf_chance(1,30)? '\t' : (char)vf_range(33,126); if( l+1<want || vf_chance(1,2) ) { memcpy(src+sn,eol,strlen(eol)); sn+=strlen(eol); } n++; } src[sn]=0; normalise(); }
static void large(uint64_t idx) { (void)idx; if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } vf_set_cpu_limit(60); gen_large(); vf_mix_bytes(src,sn); OP("source of %zu byte(s), %zu line(s)",sn,lines); bool file=vf_chance(1,3), freed=vf_chance(1,2), res=false; struct HarbolMsgSpan m; ln=notes_n=0;
	if( file ) { FILE *f=fopen("src.txt","wb"); if( !f || fwrite(src,1,sn,f)!=sn || fclose(f) ) { fprintf(stderr,"VF-HARNESS file\n"); _exit(3); } m=harbol_msg_span_make("src.txt",true,freed,&res); } else m=harbol_msg_span_make(src,false,freed,&res);
	CHECK(res,"msg-init","source refused"); check_lines(&m,freed); size_t cnt=0, ecnt=0;
	for( size_t k=vf_range(1,3); k--; ) { size_t want=lines>4 && vf_chance(1,4)? vf_range(100,190) : vf_range(1,4); while( ln<want ) { one_label(&m); }
		if( vf_chance(1,2) && lines>300 ) { /* one label over hundreds of lines */ struct lab *x=&L[ln]; uint32_t a=(uint32_t)vf_range(1,lines-200), b=a+(uint32_t)vf_range(100,vf_chance(1,3)? lines-a : 199); x->s=(struct HarbolTokenSpan){a,b,0,vf_chance(1,2)? 70000 : 5}; x->sc=x->mc=NULL; x->sym='^'; strcpy(x->msg,"wide"); CHECK(harbol_msg_span_add_label(&m,x->s,NULL,'^',NULL,"wide"),"msg-label","label refused"); OP("add_label({%u,%u,%u,%u})",a,b,x->s.colm_start,x->s.colm_end); ln++; COUNT("label-over-hundreds"); }
		for( size_t q=vf_chance(1,2)? 0 : vf_range(1,50); q--; ) one_note(&m); emit(&m,&cnt,&ecnt); } check_lines(&m,freed); harbol_msg_span_clear(&m); vf_leak_check("msg-leak"); }
/* more than 65535 labels or notes waiting at once */
static void many(uint64_t idx) { vf_set_cpu_limit(120); sn=(size_t)sprintf(src,"one\ntwo\n\nfour"); normalise(); bool res=false; struct HarbolMsgSpan m=harbol_msg_span_make(src,false,vf_chance(1,2),&res); CHECK(res,"msg-init","source refused"); ln=notes_n=0; size_t a=idx%2? vf_range(65500,71000) : vf_below(5), b=idx%2? vf_below(5) : vf_range(65500,71000), cnt=0, ecnt=0; for( int k=0; k<2; k++ ) { while( ln<a ) one_label(&m); while( notes_n<b ) one_note(&m); CHECK(m.labels.len==a && m.notes.len==b,"msg-kept","%zu label(s) and %zu note(s) are waiting, expected %zu and %zu",m.labels.len,m.notes.len,a,b); if( k && vf_chance(1,2) ) { ln=notes_n=0; COUNT("many-cleared"); break; } emit(&m,&cnt,&ecnt); if( a>65535 ) COUNT("labels-beyond-16-bits"); if( b>65535 ) COUNT("notes-beyond-16-bits"); a=vf_below(100); b=vf_below(100); }
	harbol_msg_span_clear(&m); vf_leak_check("msg-leak"); }
struct vf_mode const vf_modes[]={{"many",many},{"span",span},{"large",large},{"bytes",bytes},{"message",message},{NULL,NULL}};
struct vf_probe const vf_probes[]={{NULL,NULL}};
