/* C17: a document is generated together with the tree it states; the parsed tree, its order, types, values and all path lookups must agree.
 * Mode "broken": one definite mistake at a known place; everything before it is kept and the mistake is reported on its line. */
#include <ctype.h>
#include "cfgmodel.h"
static struct node *top; static struct gen g; static long long li,le;
static void start(bool file) { dclear(); top=m_new(HarbolCfgType_Map,"",0); li=le=0; memset(&g,0,sizeof g); g.li=&li; g.le=&le; g.budget=vf_chance(1,10)? 60 : 20; g.in_file=file; msg_n=0; }
static void paths(struct HarbolMap *m) {
	char p[1500]; size_t k=vf_range(1,6);
	for( size_t i=0; i<k; i++ ) { struct node *x=m_pick(top); if( x && m_path(x,p,sizeof p) ) { OP("get %s -> %s",vf_quote(p,strlen(p)),m_tname[x->type]); check_get(m,p,x,"cfg-path"); COUNT("path-found"); if( x->up!=top ) COUNT("nested-path"); if( memchr(x->key,'.',x->klen) ) COUNT("escaped-dot"); } if( absent_path(top,p,sizeof p) ) { OP("get %s -> absent",vf_quote(p,strlen(p))); check_get(m,p,NULL,"cfg-path-absent"); COUNT("path-absent"); } }
}
static void text(uint64_t idx) {
	(void)idx; start(false); g_section(&g,top,vf_chance(1,30)? 0 : vf_range(1,8),true); char *y=vf_exact_str(doc,dlen); OP("parse %s",vf_quote(doc,dlen)); vf_mix_bytes(doc,dlen);
	struct HarbolMap *m=harbol_cfg_parse_cstr(y); CHECK(m,"cfg-parse","no tree"); CHECK(msg_n==0,"cfg-message","well-formed document reported as: %s",msg_text); CHECK(!memcmp(y,doc,dlen+1),"cfg-source","the document changed"); vf_xfree(y);
	cmp_tree(m,top,NULL,"cfg-tree",""); paths(m); if( top->n==0 ) { COUNT("empty-document"); vf_trivial(); } if( top->n>8 ) COUNT("grown");
	harbol_cfg_free(&m); CHECK(m==NULL,"cfg-free","handle not reset"); vf_leak_check("cfg-leak"); m_free(top); COUNT("document");
}
static void wr(char const *path, char const *s, size_t n) { FILE *f=fopen(path,"wb"); if( !f || (n && fwrite(s,1,n,f)!=n) || fclose(f) ) { fprintf(stderr,"VF-HARNESS scratch file\n"); _exit(3); } }
static void file(uint64_t idx) {
	char path[20]="c.cfg", inc[20]="inc.cfg"; if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } bool with=vf_chance(1,3), missing=vf_chance(1,8); struct node *sub=NULL; size_t warns=0; (void)idx;
	start(true); 
	if( with ) { sub=m_new(HarbolCfgType_Map,inc,strlen(inc)); struct node *t=top; top=sub; g.file=inc; g_section(&g,sub,vf_range(0,4),true); top=t; OP("included: %s",vf_quote(doc,dlen)); wr(inc,doc,dlen); dclear(); memset(&g,0,sizeof g); li=le=0; g.li=&li; g.le=&le; g.budget=15; g.in_file=true; }
	g.file=path; g_section(&g,top,vf_range(0,5),true); if( top->n && endnum(top->kid[top->n-1]->type) ) dput(' ');
	if( with ) { g_ws(&g,false); dputs(vf_chance(1,2)? "\"<include>\"" : "'<INCLUDE>'"); g_ws(&g,false); g_lit(&g,inc,strlen(inc)); g_ws(&g,false); m_add(top,sub); COUNT("included"); }
	if( missing ) { dputs(" \"<include>\": \"/nonexistent/dir/x.cfg\" "); warns++; if( vf_chance(1,2) ) dputs(" \"<include>\": \"\" "), warns++; }
	if( with || missing ) { struct node *t=m_new(HarbolCfgType_Int,"after-inclusion",15); t->i=7; m_add(top,t); dputs(" 'after-inclusion' 7"); }
	wr(path,doc,dlen); OP("parse_file %s",vf_quote(doc,dlen)); vf_mix_bytes(doc,dlen); bool nomsg = warns==0; msg_n=0;
	char *yp=vf_exact_str(path,strlen(path)); struct HarbolMap *m=harbol_cfg_parse_file(yp); CHECK(m,"cfg-parse","no tree from a %zu-byte file: %s",dlen,msg_text); if( nomsg ) CHECK(msg_n==0,"cfg-message","well-formed file reported as: %s",msg_text); else { CHECK(msg_n>=warns,"cfg-unreported","%zu file(s) that cannot be included, %zu report(s)",warns,msg_n); COUNT("inclusion-missing"); } vf_xfree(yp);
	cmp_tree(m,top,NULL,"cfg-tree",""); paths(m); harbol_cfg_free(&m); vf_leak_check("cfg-leak"); if( dlen==0 ) COUNT("empty-file"); m_free(top); unlink(path); unlink(inc); COUNT("file");
	if( vf_chance(1,10) ) { /* cycles of inclusion are cut and missing files reported */
		char a[1500]; snprintf(a,sizeof a,"'x' 1 \"<include>\": \"%s\" 'y' 2",inc); wr(path,a,strlen(a)); snprintf(a,sizeof a,"'z' 3 \"<include>\": \"%s\" 'w' 4",vf_chance(1,2)? path : inc); wr(inc,a,strlen(a)); msg_n=0; m=harbol_cfg_parse_file(path); CHECK(m && msg_n>0,"cfg-cycle","cyclic inclusion not reported"); intmax_t *q=harbol_cfg_get_int(m,"y"); CHECK(q && *q==2,"cfg-cycle","entry behind the inclusion lost"); harbol_cfg_free(&m); unlink(path); unlink(inc); msg_n=0; m=harbol_cfg_parse_file(path); CHECK(!m && msg_n>=1,"cfg-missing","missing file"); vf_leak_check("cfg-leak"); COUNT("cycle");
		/* a mistake inside an included file is reported there; the including file goes on with its own name and line */
		size_t l1=vf_below(20), l2=vf_below(20), n=0; for( size_t i=0; i<l1; i++ ) a[n++]='\n'; sprintf(a+n,"'ok' 1 'bad' ? 'lost' 2"); wr(inc,a,strlen(a)); n=0; for( size_t i=0; i<l2; i++ ) a[n++]='\n'; bool also=vf_chance(1,2); n+=(size_t)sprintf(a+n,"\"<include>\" '%s' 'y' 2\n%s",inc,also? "'bad' ?" : ""); wr(path,a,n); msg_n=0; m=harbol_cfg_parse_file(path); OP("a mistake on line %zu of %s, included on line %zu: %zu report(s), the last in %s:%u",l1+1,inc,l2+1,msg_n,msg_file,msg_line);
		CHECK(m && msg_n==1u+also,"cfg-unreported","%zu report(s)",msg_n); if( msg_has_line ) { CHECK(!strcmp(msg_file,also? path : inc),"cfg-report-file","reported in '%s'",msg_file); CHECK(msg_line==(also? l2+2 : l1+1),"cfg-line","reported on line %u, expected %zu",msg_line,also? l2+2 : l1+1); } q=harbol_cfg_get_int(m,"y"); CHECK(q && *q==2,"cfg-kept","entry behind the inclusion lost"); q=harbol_cfg_get_int(m,"inc\\.cfg.ok"); CHECK(q && *q==1,"cfg-kept","what was read of the included file is lost"); CHECK(!harbol_cfg_get_int(m,"inc\\.cfg.lost"),"cfg-kept","an entry behind the mistake"); harbol_cfg_free(&m); unlink(path); unlink(inc); vf_leak_check("cfg-leak"); COUNT("mistake-in-included"); }
}
/* one mistake: everything stated before it is kept, and it is reported with its line */
static void broken(uint64_t idx) {
	(void)idx; bool as_file=vf_chance(1,4); start(as_file); if( as_file ) { if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } g.file="b.cfg"; } g.oneline_strings=true; g_section(&g,top,vf_range(0,5),true); struct node *p=top; size_t deep=vf_below(3);
	for( size_t d=0; d<deep; d++ ) { char k[40]; snprintf(k,sizeof k,"deep section %zu %zu",d,(size_t)vf_below(1000000)); struct node *x=m_new(HarbolCfgType_Map,k,strlen(k)); m_add(p,x); g_ws(&g,true); g_lit(&g,k,strlen(k)); g_ws(&g,true); dput('{'); p=x; li=le=0; g_section(&g,p,vf_range(0,3),false); dput('\n'); }
	dput(' '); char key[40]; snprintf(key,sizeof key,"bad %zu",(size_t)vf_below(1000000)); bool dup = p->n>0 && vf_chance(1,6); char const *what; uint32_t line=0; size_t warn=0;
	static char const *const bad[]={"tru","falze","nul ","iot","IOTa","<fil>","[1,2]","c 1","v{1}","c[1,x]","v[1","c[","?","}", "@","&","-","+","-x","5..5","1e","0x","09","1'","'unterminated","\"\\x\"","'\\x'"," ","{ 'a': 1", "{ 'a' 1 ]","2uu","0b","v[.]","c['1']","1.2.3"};
	if( dup ) { struct node *x=p->kid[vf_below(p->n)]; if( memchr(x->key,'\n',x->klen) || special(x->key) ) { g_lit(&g,"k ",2); what=" ?"; } else { g_lit(&g,x->key,x->klen); what=" 1"; COUNT("duplicate"); } }
	else if( vf_chance(1,8) ) what=(char const*[]){"unquoted 1","= 5","\"\" 5","'' 'x'","\"unterminated","[","5 ","'a\\","\x80 1"}[vf_below(9)];
	else { g_lit(&g,key,strlen(key)); dput(':'); dput(' '); what=bad[vf_below(sizeof bad/sizeof *bad)]; }
	for( size_t i=0; i<dlen; i++ ) if( doc[i]=='\n' ) line++; line++; dputs(what); (void)warn;
	bool sect = what[0]=='{', cut=what[0]==' ' && what[1]==0; if( !sect && !cut && what[0]!='\'' && what[0]!='"' ) { dput('\n'); if( vf_chance(1,2) ) dputs("'later' 5"); }
	char *y=vf_exact_str(doc,dlen); OP("mistake %s; parse %s",what,vf_quote(doc,dlen)); vf_mix_bytes(doc,dlen); struct HarbolMap *m; if( as_file ) { char *z=vf_xmalloc(dlen*2+2); size_t zn=0; int style=(int)vf_below(3); for( size_t i=0; i<dlen; i++ ) { if( doc[i]=='\r' && doc[i+1]=='\n' ) continue; if( doc[i]=='\n' && (i==0 || doc[i-1]!='\\') ) { if( style ) z[zn++]='\r'; if( style!=2 ) z[zn++]='\n'; } else z[zn++]=doc[i]; } wr("b.cfg",z,zn); vf_xfree(z); m=harbol_cfg_parse_file("b.cfg"); if( msg_n ) CHECK(!strcmp(msg_file,"b.cfg"),"cfg-report-file","a mistake in b.cfg is reported in '%s'",msg_file); unlink("b.cfg"); COUNT("broken-file"); } else m=harbol_cfg_parse_cstr(y); CHECK(m,"cfg-broken","no tree"); CHECK(msg_n>0,"cfg-unreported","mistake '%s' was not reported",what); CHECK(!strcmp(y,doc),"cfg-source","the document changed"); vf_xfree(y);
	/* the line is judged where a mistake ends on the line it starts */
	if( !cut && !sect && what[0]!='v' && what[0]!='c' && what[0]!='}' && msg_has_line ) { CHECK(msg_line==line || msg_line==line+1,"cfg-line","mistake '%s' on line %u reported on line %u: %s",what,line,msg_line,msg_text); COUNT("line-reported"); }
	if( sect ) { struct node *x=m_new(HarbolCfgType_Map,key,strlen(key)), *c=m_new(HarbolCfgType_Int,"a",1); c->i=1; m_add(x,c); m_add(p,x); }
	cmp_tree(m,top,NULL,"cfg-kept",""); harbol_cfg_free(&m); vf_leak_check("cfg-leak"); m_free(top); COUNT("broken"); if( deep ) COUNT("broken-nested");
}
/* nesting deeper than any stack is refused, nesting of some hundred levels is not */
static void deep(uint64_t idx) {
	if( idx%3==0 ) { /* many sections beside each other are not nesting */
		size_t lv=vf_below(200), per=vf_range(510,1500), sub=vf_below(3); dclear(); for( size_t i=0; i<lv; i++ ) dputs("'a' {"); for( size_t i=0; i<per; i++ ) { char b[80]; snprintf(b,sizeof b,"'s%zu': {%s%s}",i,sub>0? " 'x' {}" : "",sub>1? " 'y' { 'z' {} }" : ""); dputs(b); } for( size_t i=0; i<lv; i++ ) dput('}'); dputs(" 'last' 1"); vf_mix(lv); vf_mix(per); OP("%zu sections at level %zu",per,lv); msg_n=0; struct HarbolMap *m=harbol_cfg_parse_cstr(doc); CHECK(m && msg_n==0,"cfg-deep","%zu sections beside each other at level %zu refused: %s",per,lv,msg_text); struct HarbolMap *x=m; for( size_t i=0; i<lv; i++ ) { x=harbol_cfg_get_section(x,"a"); CHECK(x,"cfg-deep","level %zu is missing",i); }
		size_t want=per+(lv==0); CHECK(x->len==want,"cfg-deep","%zu sections instead of %zu",x->len,want); for( size_t i=0; i<per; i++ ) { char b[40]; snprintf(b,sizeof b,"s%zu",i); struct HarbolMap *y=harbol_cfg_get_section(x,b); CHECK(y && y->len==sub,"cfg-deep","section %s",b); } intmax_t *q=harbol_cfg_get_int(m,"last"); CHECK(q && *q==1,"cfg-deep","the entry behind the sections is missing"); harbol_cfg_free(&m); vf_leak_check("cfg-leak"); COUNT("many-sections"); return; }
	if( idx%9==1 ) { /* a chain of files that each nest some hundred sections around the next inclusion */
		if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } size_t n=vf_range(90,130), lv=vf_range(250,400); char b[60]; for( size_t i=0; i<n; i++ ) { dclear(); dputs("'first': 7 "); for( size_t k=0; k<lv; k++ ) dputs("'a'{"); if( i+1<n ) { snprintf(b,sizeof b,"'<include>' 'd%zu.cfg'",i+1); dputs(b); } for( size_t k=0; k<lv; k++ ) dput('}'); snprintf(b,sizeof b,"d%zu.cfg",i); wr(b,doc,dlen); }
		vf_mix(n); vf_mix(lv); OP("parse %zu files of %zu nested sections, each including the next inside",n,lv); msg_n=0; struct HarbolMap *m=harbol_cfg_parse_file("d0.cfg"); CHECK(m,"cfg-deep","no tree"); CHECK(msg_n>0,"cfg-deep","%zu levels of nesting over %zu files not reported",n*lv,n); intmax_t *q=harbol_cfg_get_int(m,"first"); CHECK(q && *q==7,"cfg-kept","what was read before the excessive nesting is lost"); harbol_cfg_free(&m); vf_leak_check("cfg-leak"); for( size_t i=0; i<n; i++ ) { snprintf(b,sizeof b,"d%zu.cfg",i); unlink(b); } COUNT("too-deep-over-files"); return; }
	size_t n= vf_chance(1,2)? vf_range(50,300) : vf_range(20000,200000); dclear(); for( size_t i=0; i<n; i++ ) dputs("'a'{"); bool close=vf_chance(1,2) || n<=300; if( close ) for( size_t i=0; i<n; i++ ) dput('}'); vf_mix(n); OP("parse %zu nested sections",n); msg_n=0;
	struct HarbolMap *m=harbol_cfg_parse_cstr(doc); CHECK(m,"cfg-deep","no tree"); if( n<=300 ) { CHECK(msg_n==0,"cfg-deep","%zu nested sections refused",n); size_t d=0; for( struct HarbolMap *x=m; x->len; x=*(struct HarbolMap**)((struct HarbolVariant*)x->datum[0])->data ) d++; CHECK(d==n,"cfg-deep","%zu levels instead of %zu",d,n); COUNT("deep-accepted"); } else { CHECK(msg_n>0,"cfg-deep","excessive nesting not reported"); COUNT("too-deep"); } harbol_cfg_free(&m); vf_leak_check("cfg-leak");
}
/* more entries, lines, counters and longer texts than 16 bits can count */
static int ldom; /* the kind most entries have: 0 iota, 1 <ENUM>, 3 IOTA under a key with <enum> */
static int lkind(size_t i) { return i%20==8? 4 : i%10==0? (ldom==0? 1 : 0) : i%10==3? (ldom==3? 1 : 3) : ldom; }
static void large(uint64_t idx) {
	 dclear(); msg_n=0; size_t per=vf_range(800,1200), sn=vf_range(66000,75000)*4/3/per+2, longl=vf_range(65000,140000); if( idx%6==4 ) { per=vf_range(4200,5000); sn=2; vf_set_cpu_limit(60); } bool in_file=vf_chance(1,2); char b[120]; uint32_t line=1; ldom=(int[]){1,3,0}[idx%3];
	for( size_t s=0; s<sn; s++ ) { int w=snprintf(b,sizeof b,"'s%zu' {\n",s); (void)w; dputs(b); line++; for( size_t i=0; i<per; i++ ) { switch( lkind(i) ) { case 0: snprintf(b,sizeof b,"'k%zu': iota",i); break; case 1: snprintf(b,sizeof b,"'<ENUM>e': %zu",s*per+i); break; case 3: snprintf(b,sizeof b,"'<enum>l': IOTA"); break; default: snprintf(b,sizeof b,"'k%zu': 'v%zu'",i,s*per+i); } dputs(b); dput('\n'); line++; if( i%7==0 ) { dputs("# note\n"); line++; } } dputs("}\n"); line++; }
	dputs("'long': \""); for( size_t i=0; i<longl; i++ ) { if( i%1000==999 ) dputs("\\n"); else dput((char)('a'+i%26)); } dputs("\"\n'"); line++; for( size_t i=0; i<longl; i++ ) dput((char)('A'+i%26)); dputs("' 5\n"); line++; size_t mlen=vf_chance(1,2)? vf_range(65530,65540) : vf_range(60000,90000), fz=vf_range(65530,66000); dputs("'math': \""); for( size_t i=0; i<mlen; i++ ) dput('m'); size_t ones=vf_chance(1,3)? 1 : vf_chance(1,2)? vf_range(2,200) : vf_range(200,3000); dputs("<math 42"); for( size_t i=1; i<ones; i++ ) dputs(i%2? "+1" : " - 1"); dputs(">tail\"\n"); line++; unsigned long pa=1+vf_rand()%0x7fffffff, pb=1+vf_rand()%0x7fffffff; snprintf(b,sizeof b,"'big': '(<math %lu*%lu>)'\n",pa,pb); dputs(b); line++; dputs("'float': 2."); for( size_t i=0; i<fz; i++ ) dput('0'); dputs("5\n'zeros': 0x"); line++; for( size_t i=0; i<fz; i++ ) dput('0'); dputs("1F\n"); line++; dputs(" 'bad' ?\n");
	OP("parse %zu sections of %zu entries, %zu-byte texts, %u lines",sn,per,longl,line); vf_mix(per); vf_mix(longl); struct HarbolMap *m;
	if( in_file ) { if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } wr("big.cfg",doc,dlen); m=harbol_cfg_parse_file("big.cfg"); unlink("big.cfg"); } else m=harbol_cfg_parse_cstr(doc);
	CHECK(m && msg_n==1,"cfg-large","%zu messages: %s",msg_n,msg_text); if( msg_has_line ) CHECK(msg_line==line,"cfg-line","mistake on line %u reported on line %u",line,msg_line); CHECK(m->len==sn+6,"cfg-large","%zu entries at the top, expected %zu",m->len,sn+6);
	intmax_t giota=0, gen_=0; for( size_t s=0; s<sn; s++ ) { snprintf(b,sizeof b,"s%zu",s); struct HarbolMap *x=harbol_cfg_get_section(m,b); CHECK(x && x->len==per,"cfg-large","section %zu holds %zu entries, expected %zu",s,x? x->len : 0,per); intmax_t iota=0, en=0;
		for( size_t i=0; i<per; i++ ) { int c=lkind(i); intmax_t want=0; switch( c ) { case 0: snprintf(b,sizeof b,"k%zu",i); want=iota++; break; case 1: snprintf(b,sizeof b,"%jde",gen_++); want=(intmax_t)(s*per+i); break; case 3: snprintf(b,sizeof b,"%jdl",en++); want=giota++; break; default: snprintf(b,sizeof b,"k%zu",i); }
			CHECK(!strcmp((char const*)x->keys[i],b),"cfg-large","entry %zu has key %s, expected %s",i,(char const*)x->keys[i],b); if( c==4 ) { char v[40]; snprintf(v,sizeof v,"v%zu",s*per+i); struct HarbolString *q=harbol_cfg_get_str(x,b); CHECK(q && q->cstr && !strcmp(q->cstr,v),"cfg-large","%s",b); } else { intmax_t *q=harbol_cfg_get_int(x,b); CHECK(q && *q==want,"cfg-large","%s is %jd, expected %jd",b,q? *q : -1,want); } } }
	if( gen_>65536 ) COUNT("enum-over-16-bits"); if( giota>65536 ) COUNT("iota-over-16-bits"); if( ldom==0 ) COUNT("iota-over-8-bits");
	struct HarbolString *q=harbol_cfg_get_str(m,"long"); CHECK(q && q->len==longl,"cfg-large","long text has %zu byte(s), expected %zu",q? q->len : 0,longl); for( size_t i=0; i<longl; i++ ) CHECK(q->cstr[i]==(i%1000==999? '\n' : (char)('a'+i%26)),"cfg-large","byte %zu of the long text",i); char *lk=vf_xmalloc(longl+1); for( size_t i=0; i<longl; i++ ) lk[i]=(char)('A'+i%26); lk[longl]=0; intmax_t *f=harbol_cfg_get_int(m,lk); CHECK(f && *f==5,"cfg-large","entry with a %zu-byte key",longl); vf_xfree(lk);
	q=harbol_cfg_get_str(m,"math"); CHECK(q && q->len>mlen+4+2 && q->len==strlen(q->cstr) && strtod(q->cstr+mlen,NULL)==42.0+(double)((ones-1)%2) && !strcmp(q->cstr+q->len-4,"tail"),"cfg-large","mathematics at %zu of a text: %s",mlen,q? vf_quote(q->cstr+(q->len>mlen? mlen : 0),20) : "absent"); for( size_t i=0; i<mlen; i++ ) CHECK(q->cstr[i]=='m',"cfg-large","byte %zu before the mathematics",i);
	q=harbol_cfg_get_str(m,"big"); snprintf(b,sizeof b,"(%Lf)",(long double)pa*(long double)pb); CHECK(q && q->cstr && !strcmp(q->cstr,b),"cfg-large","%lu*%lu is written as %s, expected %s",pa,pb,q? q->cstr : "",b);
	floatmax_t *ff=harbol_cfg_get_float(m,"float"); CHECK(ff && *ff==2.0L,"cfg-large","a float of %zu digits is %Lg",fz,ff? *ff : -1.0L); f=harbol_cfg_get_int(m,"zeros"); CHECK(f && *f==31,"cfg-large","an integer of %zu digits is %jd",fz,f? *f : -1);
	harbol_cfg_free(&m); vf_leak_check("cfg-leak"); COUNT("large");
}
/* files that include files: each keeps its own counters and its own name; a file may be included from several places */
static void chain(uint64_t idx) {
	(void)idx; if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } size_t n=vf_range(2,7); bool uses[8][8]; char name[8][20]; memset(uses,0,sizeof uses); size_t vals[8]; bool in_sect[8][8], again[8]; memset(in_sect,0,sizeof in_sect); memset(again,0,sizeof again); bool dups=false;
	for( size_t i=0; i<n; i++ ) snprintf(name[i],20,"f%zu.cfg",i);
	for( size_t i=n; i-->0; ) { dclear(); vals[i]=vf_range(0,3); dputs("'me': <FILE>\n"); for( size_t j=0; j<vals[i]; j++ ) { char b[60]; snprintf(b,sizeof b,"'<enum>a': iota '<ENUM>b': IOTA\n"); dputs(b); }
		for( size_t j=i+1; j<n; j++ ) if( vf_chance(1,2) ) { uses[i][j]=true; in_sect[i][j]=vf_chance(1,4); char b[80]; snprintf(b,sizeof b,in_sect[i][j]? "'in %s': { '<include>' '%s' }" : "'%.0s<INCLUDE>': \"%s\"",name[j],name[j]); dputs(b); dput('\n'); }
		dputs("'end': iota 'gend' IOTA 'e<ENUM>z': 1 'l<enum>z' 2"); if( vf_chance(1,8) ) for( size_t j=i+1; j<n; j++ ) if( uses[i][j] && !in_sect[i][j] ) { char b[80]; snprintf(b,sizeof b," '<include>': '%s' ",name[j]); dputs(b); again[i]=true; break; }
		wr(name[i],doc,dlen); vf_mix_bytes(doc,dlen); OP("file %s: %s",name[i],vf_quote(doc,dlen)); }
	msg_n=0; struct HarbolMap *m=harbol_cfg_parse_file(name[0]); size_t total=0, deepest=0;
	struct { struct HarbolMap *m; size_t f, d; } st[400]; size_t sp=0; st[sp].m=m; st[sp].d=0; st[sp++].f=0;
	while( sp ) { sp--; struct HarbolMap *x=st[sp].m; size_t f=st[sp].f, d=st[sp].d; total++; dups|=again[f]; if( d>deepest ) deepest=d; struct HarbolString *me=harbol_cfg_get_str(x,"me"); CHECK(me && me->cstr && !strcmp(me->cstr,name[f]),"cfg-chain","file %s calls itself %s",name[f],me && me->cstr? me->cstr : "nothing"); char b[80]; size_t len=5+2*vals[f];
		for( size_t j=0; j<vals[f]; j++ ) { snprintf(b,sizeof b,"%zua",j); intmax_t *q=harbol_cfg_get_int(x,b); CHECK(q && *q==(intmax_t)j,"cfg-chain","%s in %s",b,name[f]); snprintf(b,sizeof b,"%zub",j); q=harbol_cfg_get_int(x,b); CHECK(q && *q==(intmax_t)j,"cfg-chain","%s in %s",b,name[f]); }
		for( size_t j=f+1; j<n; j++ ) if( uses[f][j] ) { len++; char path[120]; snprintf(b,sizeof b,"f%zu\\.cfg",j); snprintf(path,sizeof path,in_sect[f][j]? "in %s.%s" : "%.0s%s",b,b); struct HarbolMap *y=harbol_cfg_get_section(x,path); CHECK(y,"cfg-chain","'%s' is missing in %s",path,name[f]); if( sp<399 ) { st[sp].m=y; st[sp].d=d+1; st[sp++].f=j; } }
		intmax_t *q=harbol_cfg_get_int(x,"end"); CHECK(q && *q==(intmax_t)vals[f],"cfg-chain","iota behind the inclusions of %s is %jd, expected %zu",name[f],q? *q : -1,vals[f]); q=harbol_cfg_get_int(x,"gend"); CHECK(q && *q==(intmax_t)vals[f],"cfg-chain","IOTA behind the inclusions of %s is %jd, expected %zu",name[f],q? *q : -1,vals[f]); snprintf(b,sizeof b,"e%zuz",vals[f]); q=harbol_cfg_get_int(x,b); CHECK(q && *q==1,"cfg-chain","no key '%s' behind the inclusions of %s",b,name[f]); b[0]='l'; q=harbol_cfg_get_int(x,b); CHECK(q && *q==2,"cfg-chain","no key '%s' behind the inclusions of %s",b,name[f]); CHECK(x->len==len,"cfg-chain","%s holds %zu entries, expected %zu",name[f],x->len,len); }
	if( dups ) { CHECK(msg_n>0,"cfg-unreported","a file included twice in one place was not reported"); COUNT("included-twice"); if( !again[0] ) COUNT("included-twice-deeper"); } else CHECK(msg_n==0,"cfg-chain","well-formed files reported as: %s",msg_text);
	vf_mix(total); if( total>n ) COUNT("shared-inclusion"); if( deepest>1 ) COUNT("nested-inclusion"); harbol_cfg_free(&m); vf_leak_check("cfg-leak"); for( size_t i=0; i<n; i++ ) unlink(name[i]); if( total<2 ) vf_trivial();
}
/* counters: runs of local and global counters in sections, before, inside and behind deeper sections */
static struct { char path[200]; intmax_t v; } *cn; static size_t cn_n; static intmax_t cgi, cge;
static void crec(char const *path, intmax_t v) { if( cn_n<4000 ) { snprintf(cn[cn_n].path,sizeof cn[cn_n].path,"%s",path); cn[cn_n++].v=v; } }
static void csect(char const *pre, unsigned depth, size_t budget) {
	intmax_t li=0, le=0; size_t runs=vf_range(1,6); char b[80], path[300];
	for( size_t r=0; r<runs && cn_n<3000; r++ ) { unsigned k=(unsigned)vf_below(depth<6? 7 : 4); size_t m= vf_chance(1,12)? vf_range(9,130) : vf_range(1,9); if( m>budget ) m=budget;
		if( k<4 ) for( size_t i=0; i<m; i++ ) { size_t id=cn_n; switch( k ) { case 0: snprintf(b,sizeof b,"'k%zu' iota ",id); snprintf(path,sizeof path,"%sk%zu",pre,id); dputs(b); crec(path,li++); break; case 1: snprintf(b,sizeof b,"'k%zu': IOTA,\n",id); snprintf(path,sizeof path,"%sk%zu",pre,id); dputs(b); crec(path,cgi++); break; case 2: snprintf(b,sizeof b,"'e<enum>x%zu': %zu\n",id,id); snprintf(path,sizeof path,"%se%jdx%zu",pre,le++,id); dputs(b); crec(path,(intmax_t)id); break; default: snprintf(b,sizeof b,"'g<ENUM>_<enum>x%zu' %zu ",id,id); snprintf(path,sizeof path,"%sg%jd_%jdx%zu",pre,cge++,le++,id); dputs(b); crec(path,(intmax_t)id); } }
		else { size_t id=cn_n; bool en=vf_chance(1,3); if( en ) { snprintf(b,sizeof b,"'s<enum>_%zu' {",id); snprintf(path,sizeof path,"%ss%jd_%zu.",pre,le++,id); } else { snprintf(b,sizeof b,"'s%zu' {",id); snprintf(path,sizeof path,"%ss%zu.",pre,id); } crec("",0); dputs(b); csect(path,depth+1,budget/2+1); dputs("}\n"); } }
	if( li>3 ) COUNT("long-iota-run"); if( le>9 ) COUNT("two-digit-enum");
}
static void counters(uint64_t idx) {
	(void)idx; cn=vf_xmalloc(4000*sizeof *cn); cn_n=0; cgi=cge=0; dclear(); csect("",0,200); vf_mix_bytes(doc,dlen); OP("parse %s",vf_quote(doc,dlen)); msg_n=0; struct HarbolMap *m=harbol_cfg_parse_cstr(doc); CHECK(m && msg_n==0,"cfg-counter","well-formed counters reported as: %s",msg_text);
	for( size_t i=0; i<cn_n; i++ ) if( cn[i].path[0] ) { intmax_t *q=harbol_cfg_get_int(m,cn[i].path); CHECK(q && *q==cn[i].v,"cfg-counter","'%s' is %jd, expected %jd",cn[i].path,q? *q : -1,cn[i].v); COUNT("counter"); }
	harbol_cfg_free(&m); vf_xfree(cn); vf_leak_check("cfg-leak"); if( cn_n<2 ) vf_trivial();
}
/* a long line of files each including the next, from the top or from sections */
static void longchain(uint64_t idx) {
	(void)idx; if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } size_t n=vf_range(10,90); char b[200]; bool sect[100]; vf_mix(n);
	for( size_t i=0; i<n; i++ ) { dclear(); sect[i]=vf_chance(1,3); snprintf(b,sizeof b,"'before' iota 'me' <FILE> 'e<enum>' IOTA\n"); dputs(b); if( i+1<n ) { snprintf(b,sizeof b,sect[i]? "'s' { 'in' iota '<include>': 'l%zu.cfg' 'out' iota }\n" : "'<INCLUDE>' \"l%zu.cfg\"\n",i+1); dputs(b); } snprintf(b,sizeof b,"'after': iota 'f<enum>': IOTA 'no' %zu",i); dputs(b); snprintf(b,sizeof b,"l%zu.cfg",i); wr(b,doc,dlen); vf_mix(sect[i]); }
	OP("parse a chain of %zu files",n); msg_n=0; struct HarbolMap *m=harbol_cfg_parse_file("l0.cfg"), *x=m; CHECK(m && msg_n==0,"cfg-chain","well-formed chain of %zu files reported as: %s",n,msg_text);
	for( size_t i=0; i<n; i++ ) { CHECK(x,"cfg-chain","file %zu of %zu is missing",i,n); static char const *const ks[]={"before","e0","after","f1","no"}; intmax_t want[]={0,0,1,1,(intmax_t)i}; for( int k=0; k<5; k++ ) { intmax_t *q=harbol_cfg_get_int(x,ks[k]); CHECK(q && *q==want[k],"cfg-chain","'%s' of file %zu is %jd, expected %jd",ks[k],i,q? *q : -1,want[k]); }
		size_t l; char *me=harbol_cfg_get_cstr(x,"me",&l); snprintf(b,sizeof b,"l%zu.cfg",i); CHECK(me && l==strlen(b) && !strcmp(me,b),"cfg-chain","file %zu calls itself %s",i,me? me : "nothing"); CHECK(x->len==6+(i+1<n),"cfg-chain","file %zu holds %zu entries",i,x->len);
		if( i+1<n ) { if( sect[i] ) { x=harbol_cfg_get_section(x,"s"); CHECK(x && x->len==3,"cfg-chain","section of file %zu",i); intmax_t *q=harbol_cfg_get_int(x,"in"), *r=harbol_cfg_get_int(x,"out"); CHECK(q && *q==0 && r && *r==1,"cfg-chain","counters in the section of file %zu",i); } snprintf(b,sizeof b,"l%zu\\.cfg",i+1); x=harbol_cfg_get_section(x,b); } }
	harbol_cfg_free(&m); vf_leak_check("cfg-leak"); for( size_t i=0; i<n; i++ ) { snprintf(b,sizeof b,"l%zu.cfg",i); unlink(b); } COUNT("long-chain"); if( n>40 ) COUNT("very-long-chain");
}
struct vf_mode const vf_modes[] = { {"longchain", longchain}, {"counters", counters}, {"large", large}, {"chain", chain}, {"text", text}, {"file", file}, {"broken", broken}, {"deep", deep}, {0} };
struct vf_probe const vf_probes[] = { {0} };
