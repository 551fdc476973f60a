/* C04: harbol_string edits against a plain byte-sequence model. */
#include "vf.h"
#include <ctype.h>
#include <unistd.h>
#include <wchar.h>
#include "str/str.h"
#define MAXT 40000
#define HMAX 3000000
static size_t maxt=6000; static bool large; static char b[24100], c[24100];
static char *t; static size_t tl; /* model text */
static void verify(struct HarbolString *s, char const *after) {
	CHECK(s->len==tl, "str-length", "after %s: recorded length %zu, expected %zu", after, s->len, tl);
	CHECK(harbol_string_len(s)==tl, "str-length", "after %s: reported length", after);
	char const *c = harbol_string_cstr(s);
	CHECK(c==s->cstr && harbol_string_mut_cstr(s)==c, "str-cstr", "accessor");
	if( c==NULL ) { CHECK(tl==0, "str-lost", "after %s: text lost, expected %zu characters", after, tl); return; }
	CHECK(!memcmp(c, t, tl), "str-text", "after %s: text is %s, expected %s", after, vf_quote(c, tl<60?tl:60), vf_quote(t,tl<60?tl:60));
	CHECK(c[tl]==0, "str-terminator", "after %s: text not terminated at its length", after);
	CHECK(harbol_string_empty(s)==(tl==0), "str-empty", "after %s", after);
}
/* the generic forms dispatch on the type of the argument */
#if defined(harbol_string_add) && !defined(VF_NO_GENERICS)
#define GADD(s,v,f) (vf_chance(1,4)? ({ COUNT("generic"); harbol_string_add((s),(v)); }) : f((s),(v)))
#else
#define GADD(s,v,f) f((s),(v))
#endif
#if defined(harbol_string_copy) && !defined(VF_NO_GENERICS)
#define GCOPY(s,v,f) (vf_chance(1,4)? ({ COUNT("generic"); harbol_string_copy((s),(v)); }) : f((s),(v)))
#else
#define GCOPY(s,v,f) f((s),(v))
#endif
static unsigned alpha;
static char gen_char(void) { switch( alpha ) { case 0: return (char)('a'+vf_below(2)); case 1: return " \t\nabAB"[vf_below(7)]; case 2: return (char)(1+vf_below(255)); default: return (char)('a'+vf_below(26)); } }
static size_t gen_text(char *b, size_t max) { size_t n = large && max>30? (vf_chance(1,2)? vf_below(1200) : vf_size(vf_chance(1,8)? 20000:2000)) : vf_chance(1,8)? 0 : vf_chance(1,10)? vf_below(max+1) : vf_below(max/6+2); for( size_t i=0; i<n; i++ ) b[i]=gen_char(); b[n]=0; return n; }
/* a needle: often a piece of the current text */
static size_t gen_needle(char *b) { size_t n; if( tl && vf_chance(1,2) ) { size_t o=vf_below(tl); n=vf_range(1, tl-o<4? tl-o:4); if( large && vf_chance(1,3) ) n=vf_range(1,tl-o<3000? tl-o:3000); memcpy(b,t+o,n); b[n]=0; if( n>255 ) COUNT("long-needle"); } else n=gen_text(b,12); return n; }
static size_t m_replace(char const *nd, size_t nl, char const *w, size_t wl, size_t amount) {
	static char out[HMAX]; size_t o=0, cnt=0, i=0;
	if( nl ) while( i<tl ) { if( cnt<amount && i+nl<=tl && !memcmp(t+i,nd,nl) ) { memcpy(out+o,w,wl); o+=wl; i+=nl; cnt++; } else out[o++]=t[i++]; if( o>sizeof out-MAXT ) { fprintf(stderr,"VF-HARNESS model overflow\n"); _exit(3); } }
	if( cnt ) { memcpy(t,out,o); tl=o; }
	return cnt;
}
static void history(uint64_t idx) {
	if( !t ) t = vf_xmalloc(HMAX);
	tl=0; alpha=(unsigned)vf_below(4); size_t n, k; bool res;
	struct HarbolString st={0}, *s=&st; unsigned kind=(unsigned)vf_below(4);
	n=gen_text(b,40); vf_mix_bytes(b,n); char *x=vf_exact_str(b,n);
	if( kind==0 ) { s=harbol_string_new(x); CHECK(s!=NULL,"str-new","constructor failed"); memcpy(t,b,n); tl=n; OP("new %s",vf_quote(b,n)); }
	else if( kind==1 ) { st=harbol_string_make(x,&res); CHECK(res || n==0,"str-new","constructor failed"); memcpy(t,b,n); tl=n; OP("make %s",vf_quote(b,n)); }
	else if( kind==2 ) { res=harbol_string_init(s,x); CHECK(res || n==0,"str-new","init failed"); memcpy(t,b,n); tl=n; OP("init %s",vf_quote(b,n)); }
	else { s=harbol_string_new(NULL); CHECK(s!=NULL,"str-new","constructor failed"); OP("new NULL"); }
	vf_xfree(x); verify(s,"construction");
	size_t nops=vf_range(1,40);
	for( size_t o=0; o<nops; o++ ) {
		unsigned op=(unsigned)vf_below(28); vf_mix(op); char const *nm="nothing"; char *y, *z;
		if( tl>maxt/4 && op<8 ) op=8; if( tl>511 ) COUNT("long-text");
		switch( op ) {
		case 0: { char ch=gen_char(); bool r=GADD(s,ch,harbol_string_add_char); OP("add_char \\x%02x -> %d",(uint8_t)ch,r); nm="add_char"; CHECK(r,"str-add","refused"); t[tl++]=ch; } break;
		case 1: { char ch=gen_char(); size_t a = large? vf_size(9000) : vf_chance(1,10)? (vf_chance(1,2)? SIZE_MAX-vf_below(40) : SIZE_MAX/2) : vf_below(30); bool r=harbol_string_add_char_rep(s,ch,a); OP("add_char_rep x%zd -> %d",(ssize_t)a,r); nm="add_char_rep";
			CHECK(r==(a<=9000),"str-add-rep","repeating %zu times returned %d",a,r); if( r ) { memset(t+tl,ch,a); tl+=a; } else COUNT("absurd-amount-refused"); } break;
		case 2: { n=gen_text(b,60); y=vf_exact_str(b,n); bool r=GADD(s,y,harbol_string_add_cstr); vf_xfree(y); OP("add_cstr %s -> %d",vf_quote(b,n),r); nm="add_cstr"; CHECK(r||!n,"str-add","refused"); memcpy(t+tl,b,n); tl+=n; COUNT("appended"); } break;
		case 3: { if( vf_chance(1,5) ) { bool had=s->cstr!=NULL; bool r=GADD(s,s,harbol_string_add_str); OP("add_str self -> %d",r); nm="add_str(self)"; CHECK(r==had,"str-add","self append refused"); memcpy(t+tl,t,tl); tl+=tl; COUNT("self-append"); }
			else { n=gen_text(b,60); struct HarbolString q=harbol_string_make(b,&res); struct HarbolString const *cq=&q; bool r= vf_chance(1,2)? GADD(s,cq,harbol_string_add_str) : GADD(s,&q,harbol_string_add_str); OP("add_str %s -> %d",vf_quote(b,n),r); nm="add_str"; CHECK(r==(q.cstr!=NULL),"str-add","refused"); CHECK(q.len==n && (!n || !memcmp(q.cstr,b,n+1)),"str-source","source changed"); memcpy(t+tl,b,n); tl+=n; harbol_string_clear(&q); COUNT("appended"); } } break;
		case 4: case 5: { /* format */ bool clr=vf_chance(1,3); n=gen_text(b,30); int v=(int)vf_rand(); double d=(double)(int)vf_below(100000)/64.0; static char exp[24500]; size_t base = clr? 0:tl; int r;
			unsigned f=(unsigned)vf_below(4); if( f==0 ) { sprintf(exp,"[%d|%s]",v,b); r=harbol_string_format(s,clr,"[%d|%s]",v,b); } else if( f==1 ) { sprintf(exp,"%8.3f%%%c%05x",d,'q',v); r=harbol_string_format(s,clr,"%8.3f%%%c%05x",d,'q',v); }
			else if( f==2 ) { sprintf(exp,"%s",b); r=harbol_string_format(s,clr,"%s",b); } else { sprintf(exp,"plain"); r=harbol_string_format(s,clr,"plain"); }
			OP("format clear=%d -> %d",clr,r); nm="format"; CHECK(r==(int)strlen(exp),"str-format","returned %d, expected %zu",r,strlen(exp)); tl=base; memcpy(t+tl,exp,strlen(exp)); tl+=strlen(exp); if( clr ) COUNT("format-replace"); else COUNT("format-append"); } break;
		case 6: { n=gen_text(b,60); y=vf_exact_str(b,n); char const *cy=y; bool r= vf_chance(1,2)? GCOPY(s,cy,harbol_string_copy_cstr) : GCOPY(s,y,harbol_string_copy_cstr); vf_xfree(y); OP("copy_cstr %s -> %d",vf_quote(b,n),r); nm="copy_cstr"; CHECK(r||!n,"str-copy","refused"); if( r ) { if( n<tl ) COUNT("copy-shorter"); memcpy(t,b,n); tl=n; } } break;
		case 7: { n=gen_text(b,60); struct HarbolString q=harbol_string_make(b,&res); if( vf_chance(1,4) ) { CHECK(harbol_string_copy_str(s,s)==(s->cstr!=NULL) || tl==0,"str-copy","copying a string to itself refused"); verify(s,"self copy"); } bool r=GCOPY(s,&q,harbol_string_copy_str); OP("copy_str %s -> %d",vf_quote(b,n),r); nm="copy_str"; CHECK(r==(q.cstr!=NULL),"str-copy","refused"); if( r ) { memcpy(t,b,n); tl=n; }
			if( r && n ) { q.cstr[0]='#'; } harbol_string_clear(&q); } break;
		case 8: case 9: { /* range */ size_t lo = vf_chance(1,8)? tl+vf_below(3) : vf_below(tl+1), up = vf_chance(1,6)? SIZE_MAX-vf_below(3) : vf_chance(1,6)? tl : vf_below(tl+3); if( vf_chance(1,2) && up<lo ) { size_t q=up; up=lo; lo=q; } n=gen_text(c,large? 40:20); y=vf_exact_str(c,n); bool r=harbol_string_replace_range(s,lo,up,y); vf_xfree(y);
			OP("replace_range %zd..%zd with %s -> %d",(ssize_t)lo,(ssize_t)up,vf_quote(c,n),r); nm="replace_range"; vf_mix(lo); vf_mix(up);
			size_t e = up>=tl? tl-1 : up; bool ok = lo<tl && lo<=e; CHECK(r==ok,"str-range","range %zu..%zu of %zu returned %d",lo,up,tl,r);
			if( ok ) { memmove(t+lo+n,t+e+1,tl-e-1); memcpy(t+lo,c,n); tl=tl-(e-lo+1)+n; COUNT("range-replaced"); } else COUNT("range-refused"); } break;
		case 10: case 11: case 12: { n=gen_needle(b); k=gen_text(c,large && tl<2000 && vf_chance(1,8)? 40:16); size_t amt = vf_chance(1,3)? SIZE_MAX : vf_below(5); if( k>10 && (tl/(n?n:1)+1)*k>30000 ) { k=10; c[k]=0; } y=vf_exact_str(b,n); z=vf_exact_str(c,k); size_t was=tl; size_t cnt; if( tl>maxt/5 && k>n ) { vf_xfree(y); vf_xfree(z); break; }
			bool r=harbol_string_replace_cstr(s,y,z,amt); OP("replace_cstr %s with %s x%zd -> %d",vf_quote(b,n),vf_quote(c,k),(ssize_t)amt,r); vf_xfree(y); vf_xfree(z); nm="replace_cstr"; vf_mix_bytes(b,n); vf_mix(amt);
			cnt=m_replace(b,n,c,k,amt); (void)was; CHECK(r==(cnt>0),"str-replace","replacing %s returned %d, %zu occurrence(s) to replace",vf_quote(b,n),r,cnt); if( cnt>1 ) COUNT("replaced-many"); if( cnt ) COUNT("replaced"); if( !n ) COUNT("empty-needle-refused"); } break;
		case 13: { char f=gen_char(), w=gen_char(); bool any=false; bool hadtext=s->cstr!=NULL; bool r=harbol_string_replace_char(s,f,w); for( size_t i=0; i<tl; i++ ) if( t[i]==f ) { t[i]=w; any=true; } OP("replace_char -> %d",r); nm="replace_char"; (void)hadtext; CHECK(r==any,"str-replace-char","returned %d",r); CHECK(!harbol_string_replace_char(s,0,w) && !harbol_string_replace_char(s,f,0),"str-replace-char","NUL accepted"); } break;
		case 14: { char ch=gen_char(); size_t j=0; for( size_t i=0; i<tl; i++ ) if( t[i]!=ch ) t[j++]=t[i]; size_t r=harbol_string_rm_char(s,ch); OP("rm_char \\x%02x -> %zu",(uint8_t)ch,r); nm="rm_char"; CHECK(r==tl-j,"str-rm-char","removed %zu, expected %zu",r,tl-j); if( r ) COUNT("chars-removed"); tl=j; } break;
		case 15: { size_t j=0; for( size_t i=0; i<tl; i++ ) if( !strchr(" \t\n\v\f\r",t[i]) ) t[j++]=t[i]; size_t r=harbol_string_trim_spaces(s); OP("trim_spaces -> %zu",r); nm="trim_spaces"; CHECK(r==tl-j,"str-trim","removed %zu, expected %zu",r,tl-j); if( r ) COUNT("spaces-trimmed"); tl=j; } break;
		case 16: { bool up=vf_chance(1,2), any=false; for( size_t i=0; i<tl; i++ ) { char ch=t[i]; if( up && ch>='a' && ch<='z' ) ch=(char)(ch-32); else if( !up && ch>='A' && ch<='Z' ) ch=(char)(ch+32); any|=ch!=t[i]; t[i]=ch; } bool r= up? harbol_string_upper(s):harbol_string_lower(s); OP("%s -> %d",up?"upper":"lower",r); nm="case change"; CHECK(r==any,"str-case","returned %d",r); if( any ) COUNT("case-changed"); } break;
		case 17: { for( size_t i=0; i<tl/2; i++ ) { char q=t[i]; t[i]=t[tl-1-i]; t[tl-1-i]=q; } bool r=harbol_string_reverse(s); OP("reverse -> %d",r); nm="reverse"; CHECK(r==(tl>=2),"str-reverse","returned %d for length %zu",r,tl); if( r ) COUNT("reversed"); } break;
		case 18: if( vf_chance(1,3) ) { harbol_string_clear(s); tl=0; OP("clear"); nm="clear"; CHECK(s->cstr==NULL,"str-clear","storage kept"); if( vf_chance(1,3) ) harbol_string_clear(s); COUNT("cleared"); } break;
		case 19: { /* file */ static char path[600]; snprintf(path,sizeof path,"%s/f",vf_scratch()); n = vf_chance(1,5)? 0 : large? 1+vf_size(20000) : vf_range(1,150); for( size_t i=0; i<n; i++ ) b[i]=gen_char(); FILE *f=fopen(path,"wb"); if( !f || fwrite(b,1,n,f)!=n ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } fclose(f); bool r;
			if( vf_chance(1,2) ) r=harbol_string_read_file(s,path); else { f=fopen(path,"rb"); if( vf_chance(1,2) ) fseek(f,(long)(n/2),SEEK_SET); r=harbol_string_read_from_file(s,f); fclose(f); }
			OP("read file of %zu -> %d",n,r); nm="read file"; CHECK(r==(n>0),"str-file","reading %zu bytes returned %d",n,r); if( r ) { if( n<tl ) COUNT("file-shorter"); memcpy(t,b,n); tl=n; COUNT("file-read"); }
			unlink(path); CHECK(!harbol_string_read_file(s,path),"str-file","missing file accepted"); } break;
		case 20: { CHECK(!harbol_string_add_cstr(s,NULL) && !harbol_string_copy_cstr(s,NULL),"str-null","NULL text accepted"); struct HarbolString e={0}; CHECK(!harbol_string_add_str(s,&e) && !harbol_string_copy_str(s,&e),"str-null","unset source accepted"); nm="NULL arguments"; OP("null args"); } break;
		case 21: { if( tl ) { size_t i=vf_below(tl); char ch=gen_char(); harbol_string_mut_cstr(s)[i]=ch; t[i]=ch; } OP("mutate in place"); nm="mutation"; } break;
		case 22: { /* arguments that cannot be formatted (the C locale has no encoding for this wide character) */ static wchar_t const w[]={0x3b1,0}; bool clr=vf_chance(1,2); int r=harbol_string_format(s,clr,vf_chance(1,2)? "%ls":"abc %ls",w); OP("format unformattable clear=%d -> %d",clr,r); nm="unformattable format"; CHECK(r<0,"str-format","unformattable text returned %d",r); COUNT("unformattable"); } break;
		case 23: if( vf_chance(1,3) ) { /* a stream that has a size but cannot be read */ char path[600]; snprintf(path,sizeof path,"%s/w",vf_scratch()); FILE *f=fopen(path,"wb"); if( !f ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } fwrite("0123456789",1,10,f); fflush(f); bool had=s->cstr!=NULL; (void)had; harbol_string_read_from_file(s,f); fclose(f); unlink(path); OP("read unreadable stream"); nm="reading an unreadable stream";
			/* nothing was read: either the text is unchanged or it is empty */ if( s->len!=tl || tl==0 ) { CHECK(s->len==0,"str-file","reading an unreadable stream left length %zu",s->len); tl=0; } COUNT("unreadable"); } break;
		default: { n=gen_text(b,30); y=vf_exact_str(b,n); bool r=harbol_string_add_cstr(s,y); vf_xfree(y); OP("add_cstr %s -> %d",vf_quote(b,n),r); nm="add_cstr"; CHECK(r||!n,"str-add","refused"); memcpy(t+tl,b,n); tl+=n; vf_mix_bytes(b,n); } break;
		}
		verify(s,nm);
		if( tl>maxt/2 ) break;
	}
	if( kind==0 || kind==3 ) { harbol_string_free(&s); CHECK(s==NULL,"str-free","pointer not reset"); harbol_string_free(&s); } else { harbol_string_clear(s); tl=0; verify(s,"clear"); }
	vf_leak_check("str-leak");
	if( nops<3 ) vf_trivial();
}
static void history_large(uint64_t idx) { large=true; maxt=MAXT; history(idx); large=false; maxt=6000; }
/* texts of 60000 to 400000 characters: lengths, offsets, needles, replacements and occurrence counts beyond 16 bits */
static char hb[200100], hc[70100];
static size_t hpick(void) { return vf_chance(1,3)? vf_range(65530,65540) : vf_chance(1,2)? vf_range(60000,140000) : vf_range(1,3000); }
static size_t htext(char *d, size_t n) { unsigned k=(unsigned)vf_range(2,5); for( size_t i=0; i<n; i++ ) d[i]=(char)('a'+vf_below(k)); if( n>20 && vf_chance(1,2) ) for( size_t q=vf_below(40); q--; ) d[vf_below(n)]=" \tXY"[vf_below(4)]; d[n]=0; return n; }
static void huge(uint64_t idx) {
	(void)idx; vf_set_cpu_limit(60); if( !t ) t=vf_xmalloc(HMAX); tl=0; bool res; size_t n=htext(hb,hpick()); char *y=vf_exact_str(hb,n); struct HarbolString st=harbol_string_make(y,&res), *s=&st; vf_xfree(y); CHECK(res,"str-new","constructor failed"); memcpy(t,hb,n); tl=n; OP("make of %zu",n); verify(s,"construction"); vf_mix(n); size_t past=0;
	for( size_t o=vf_range(4,14); o--; ) { unsigned op=(unsigned)vf_below(20); vf_mix(op); char const *nm="nothing"; if( op>17 ) op=17; if( tl>500000 ) op=16; if( tl>65535 ) COUNT("beyond-16-bit-text");
		switch( op ) {
		case 0: { size_t a=hpick(); char ch=(char)('a'+vf_below(4)); bool r=harbol_string_add_char_rep(s,ch,a); OP("add_char_rep x%zu -> %d",a,r); nm="add_char_rep"; CHECK(r,"str-add-rep","refused"); memset(t+tl,ch,a); tl+=a; } break;
		case 1: { n=htext(hb,hpick()); y=vf_exact_str(hb,n); bool r=harbol_string_add_cstr(s,y); vf_xfree(y); OP("add_cstr of %zu -> %d",n,r); nm="add_cstr"; CHECK(r,"str-add","refused"); memcpy(t+tl,hb,n); tl+=n; } break;
		case 2: { n=htext(hb,hpick()); struct HarbolString q=harbol_string_make(hb,&res); bool r=harbol_string_add_str(s,&q); OP("add_str of %zu -> %d",n,r); nm="add_str"; CHECK(r,"str-add","refused"); memcpy(t+tl,hb,n); tl+=n; harbol_string_clear(&q); } break;
		case 3: { bool r=harbol_string_add_str(s,s); OP("add_str self -> %d",r); nm="self append"; CHECK(r,"str-add","refused"); memcpy(t+tl,t,tl); tl*=2; } break;
		case 4: case 5: { bool clr=vf_chance(1,2); n=htext(hb,hpick()); y=vf_exact_str(hb,n); int v=(int)vf_rand(); int r=harbol_string_format(s,clr,"<%s|%d>",y,v); vf_xfree(y); OP("format clear=%d of %zu -> %d",clr,n,r); nm="format"; if( clr ) tl=0; t[tl++]='<'; memcpy(t+tl,hb,n); tl+=n; int w=sprintf(t+tl,"|%d>",v); tl+=(size_t)w; CHECK(r==(int)n+w+1,"str-format","returned %d, expected %d",r,(int)n+w+1); COUNT("huge-format"); } break;
		case 6: { n=htext(hb,hpick()); y=vf_exact_str(hb,n); bool r=harbol_string_copy_cstr(s,y); vf_xfree(y); OP("copy_cstr of %zu -> %d",n,r); nm="copy_cstr"; CHECK(r,"str-copy","refused"); memcpy(t,hb,n); tl=n; } break;
		case 7: { n=htext(hb,hpick()); struct HarbolString q=harbol_string_make(hb,&res); bool r=harbol_string_copy_str(s,&q); OP("copy_str of %zu -> %d",n,r); nm="copy_str"; CHECK(r,"str-copy","refused"); memcpy(t,hb,n); tl=n; harbol_string_clear(&q); } break;
		case 8: if( tl ) { size_t lo=vf_chance(1,2)? vf_below(tl) : tl>65600? vf_range(65530,65540) : vf_below(tl), up=vf_chance(1,3)? tl-1 : lo+vf_below(tl-lo); n=htext(hc,vf_chance(1,2)? vf_range(65530,65540) : vf_below(300)); y=vf_exact_str(hc,n); bool r=harbol_string_replace_range(s,lo,up,y); vf_xfree(y); OP("replace_range %zu..%zu with %zu -> %d",lo,up,n,r); nm="replace_range"; CHECK(r,"str-range","refused"); memmove(t+lo+n,t+up+1,tl-up-1); memcpy(t+lo,hc,n); tl=tl-(up-lo+1)+n; if( lo>65535 || up-lo>65535 || n>65535 ) COUNT("huge-range");
			if( tl>66000 ) { size_t hi=vf_range(65530,tl-1), l2=vf_chance(1,2)? hi-1-vf_below(3) : vf_below(hi), bad=hi<tl-1 && vf_chance(1,3)? tl+vf_below(3) : hi; CHECK(!harbol_string_replace_range(s,bad,l2,"zz"),"str-range","range %zu..%zu accepted",bad,l2); COUNT("huge-range-refused"); } } break;
		case 17: if( tl ) { /* markers far apart */ size_t k=vf_range(1,4), wl=vf_below(4); for( size_t i=0; i<tl; i++ ) if( t[i]=='Q' ) t[i]=s->cstr[i]='a'; size_t at=vf_below(vf_chance(1,2)? 1+tl/20 : tl); for( size_t i=0; i<k && at<tl; i++, at+=vf_chance(1,2)? vf_range(65536,66600) : vf_range(1,80000) ) t[at]=s->cstr[at]='Q'; size_t last=SIZE_MAX; for( size_t i=0; i<tl; i++ ) if( t[i]=='Q' ) { if( last!=SIZE_MAX && i-last>65536 ) COUNT("huge-gap"); last=i; }
			size_t amt=vf_chance(2,3)? SIZE_MAX : vf_below(k+2); htext(hc,wl); bool r=harbol_string_replace_cstr(s,"Q",hc,amt); OP("replace_cstr of far markers with %zu x%zd -> %d",wl,(ssize_t)amt,r); nm="replace_cstr"; size_t got=m_replace("Q",1,hc,wl,amt); CHECK(r==(got>0),"str-replace","returned %d with %zu to replace",r,got); past+=got; } break;
		case 9: case 10: case 11: if( tl ) { /* needle cut from the text */ size_t nl; int kind=(int)vf_below(3); if( kind==0 ) { nl=1; hb[0]=t[vf_below(tl)]; } else { size_t p=vf_below(tl); nl=vf_range(1,tl-p); size_t lim=kind==1? 12 : 70000; if( nl>lim ) nl=kind==1? vf_range(1,12) : vf_range(65530,65540); memcpy(hb,t+p,nl); } hb[nl]=0; size_t c=0; for( size_t i=0; i+nl<=tl; ) if( !memcmp(t+i,hb,nl) ) { c++; i+=nl; } else i++;
			size_t amt=vf_chance(1,2)? SIZE_MAX : vf_chance(1,2)? vf_range(1,3) : vf_below(c+2), k=amt<c? amt : c; size_t wl=k<6? (vf_chance(1,2)? vf_range(65530,65540) : vf_below(20)) : vf_below(3); if( k>100000 && wl>1 ) wl=1; htext(hc,wl); y=vf_exact_str(hb,nl); char *z=vf_exact_str(hc,wl); bool r=harbol_string_replace_cstr(s,y,z,amt); vf_xfree(y); vf_xfree(z); OP("replace_cstr needle of %zu with %zu x%zd of %zu -> %d",nl,wl,(ssize_t)amt,c,r); nm="replace_cstr"; if( k>65535 ) COUNT("huge-occurrences"); if( nl>65535 || wl>65535 ) COUNT("huge-needle");
			size_t got=m_replace(hb,nl,hc,wl,amt); CHECK(r==(got>0),"str-replace","returned %d with %zu to replace",r,got); past+=got; } break;
		case 12: { char f=(char)('a'+vf_below(3)), w=(char)('p'+vf_below(3)); bool any=false; for( size_t i=0; i<tl; i++ ) if( t[i]==f ) { t[i]=w; any=true; } bool r=harbol_string_replace_char(s,f,w); OP("replace_char -> %d",r); nm="replace_char"; CHECK(r==any,"str-replace-char","returned %d",r); } break;
		case 13: { char ch=(char)('a'+vf_below(3)); size_t j=0; for( size_t i=0; i<tl; i++ ) if( t[i]!=ch ) t[j++]=t[i]; size_t r=harbol_string_rm_char(s,ch); OP("rm_char -> %zu",r); nm="rm_char"; CHECK(r==tl-j,"str-rm","removed %zu, expected %zu",r,tl-j); if( r>65535 ) COUNT("huge-removed"); tl=j; } break;
		case 14: { if( vf_chance(1,2) && tl ) for( size_t i=0; i<tl; i++ ) if( t[i]=='b' ) { t[i]=' '; s->cstr[i]=' '; } size_t j=0; for( size_t i=0; i<tl; i++ ) if( t[i]!=' ' && t[i]!='\t' ) t[j++]=t[i]; size_t r=harbol_string_trim_spaces(s); OP("trim_spaces -> %zu",r); nm="trim_spaces"; CHECK(r==tl-j,"str-trim","removed %zu, expected %zu",r,tl-j); tl=j; } break;
		case 15: { bool up=vf_chance(1,2); for( size_t i=0; i<tl; i++ ) t[i]=(char)(up? toupper((uint8_t)t[i]) : tolower((uint8_t)t[i])); if( up ) harbol_string_upper(s); else harbol_string_lower(s); OP("case"); nm="case change"; for( size_t i=0; i<tl/2; i++ ) { char q=t[i]; t[i]=t[tl-1-i]; t[tl-1-i]=q; } harbol_string_reverse(s); OP("reverse"); } break;
		default: { char path[600]; snprintf(path,sizeof path,"%s/h",vf_scratch()); n=htext(hb,hpick()); FILE *f=fopen(path,"wb"); if( !f || fwrite(hb,1,n,f)!=n || fclose(f) ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } bool r=harbol_string_read_file(s,path); OP("read file of %zu -> %d",n,r); nm="read file"; CHECK(r,"str-file","refused"); memcpy(t,hb,n); tl=n; unlink(path); } break;
		}
		verify(s,nm); }
	harbol_string_clear(s); vf_leak_check("str-leak"); }
struct vf_mode const vf_modes[] = { {"huge", huge}, {"history", history}, {"large", history_large}, {0} };
struct vf_probe const vf_probes[] = { {0} };
