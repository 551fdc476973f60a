/* Shared by the configuration harnesses: an abstract configuration tree, a generator that writes a document together with the
 * tree it states, comparison of a parsed tree with the abstract one, and capture of the parser's messages. */
#ifndef CFGMODEL_H
#define CFGMODEL_H
#include "vf.h"
#include <unistd.h>
#include <float.h>
#include <math.h>
#include "cfg/cfg.h"

struct node {
	enum HarbolCfgType type;
	char   *key; size_t klen;
	char   *str; size_t slen;
	long double f; intmax_t i; bool b; uint8_t c[4]; float v[4];
	struct node **kid; size_t n;
	struct node *up;
};
static inline char *m_dup(char const *s, size_t n) { char *r=vf_xmalloc(n+1); memcpy(r,s,n); r[n]=0; return r; }
static inline struct node *m_new(enum HarbolCfgType t, char const *key, size_t klen) { struct node *x=vf_xcalloc(1,sizeof *x); x->type=t; x->key=m_dup(key,klen); x->klen=klen; return x; }
static inline void m_add(struct node *p, struct node *k) { p->kid=vf_xrealloc(p->kid,(p->n+1)*sizeof *p->kid); p->kid[p->n++]=k; k->up=p; }
static inline void m_setstr(struct node *x, char const *s, size_t n) { vf_xfree(x->str); x->str=m_dup(s,n); x->slen=n; x->type=HarbolCfgType_String; }
static inline void m_free(struct node *x) { for( size_t i=0; i<x->n; i++ ) m_free(x->kid[i]); vf_xfree(x->kid); vf_xfree(x->key); vf_xfree(x->str); vf_xfree(x); }
static inline void m_empty(struct node *x) { for( size_t i=0; i<x->n; i++ ) m_free(x->kid[i]); vf_xfree(x->kid); x->kid=NULL; x->n=0; vf_xfree(x->str); x->str=NULL; x->slen=0; }
static inline struct node *m_find(struct node *p, char const *key, size_t klen) { for( size_t i=0; i<p->n; i++ ) if( p->kid[i]->klen==klen && !memcmp(p->kid[i]->key,key,klen) ) return p->kid[i]; return NULL; }
static inline size_t m_count(struct node const *x) { size_t r=1; for( size_t i=0; i<x->n; i++ ) r+=m_count(x->kid[i]); return r; }
static char const *const m_tname[]={"null","section","string","float","int","bool","color","vector"};

/* ---- parser messages, captured through --wrap=harbol_write_msg ---- */
static size_t msg_n; static uint32_t msg_line; static bool msg_has_line; static char msg_text[4000], msg_type[100], msg_file[400];
void __wrap_harbol_write_msg(size_t *cnt, FILE *stream, char const *filename, char const *type, char const *color, uint32_t const *line, uint32_t const *col, char const *fmt, ...) {
	va_list ap; va_start(ap,fmt); vsnprintf(msg_text,sizeof msg_text,fmt,ap); va_end(ap); snprintf(msg_type,sizeof msg_type,"%s",type? type : "");
	snprintf(msg_file,sizeof msg_file,"%s",filename? filename : ""); if( filename ) vf_mix(strlen(filename)); if( color ) vf_mix(strlen(color));
	msg_n++; msg_has_line = line!=NULL; msg_line = line? *line : 0; if( cnt ) ++*cnt; (void)stream; (void)col;
	if( vf_tracing ) OP("message: (%u) %s",msg_line,vf_quote(msg_text,strlen(msg_text)));
}

/* ---- the document under construction ---- */
static char *doc; static size_t dlen, dcap;
static inline void dput(char c) { if( dlen+2>dcap ) { dcap=dcap? dcap*2 : 4096; doc=vf_xrealloc(doc,dcap); } doc[dlen++]=c; doc[dlen]=0; }
static inline void dputs(char const *s) { while( *s ) dput(*s++); }
static inline void dclear(void) { dlen=0; dput(' '); dlen=0; doc[0]=0; }
struct gen { bool in_file, oneline_strings; char const *file; long long gi, ge, *li, *le; int depth; size_t budget; bool plain_numbers, no_comments; };
static inline void g_ws(struct gen *g, bool need) {
	size_t k= vf_chance(1,3)? vf_below(4) : 0; if( need ) { dput(" \n,:\t"[vf_below(5)]); }
	for( size_t i=0; i<k; i++ ) switch( vf_below(g->no_comments? 5 : 8) ) {
		case 0: dput(' '); break; case 1: dput('\n'); if( vf_chance(1,600) ) { for( size_t j=vf_range(200,600); j--; ) dput('\n'); COUNT("many-empty-lines"); } break; case 2: dput('\t'); break; case 3: dput(','); break; case 4: dputs(g->in_file && vf_chance(1,3)? "\r\n" : " "); break;
		case 5: case 6: { dputs(vf_chance(1,2)? "#" : "//"); size_t n=vf_below(10); for( size_t j=0; j<n; j++ ) dput("ab{}\"'[]*/<>#1,:v"[vf_below(17)]); if( vf_chance(1,8) ) { dputs("\\\n\"x\" 5"); COUNT("continued-comment"); } dput('\n'); COUNT("comment"); break; }
		default: { dputs("/*"); size_t n=vf_below(10); char last='*'; for( size_t j=0; j<n; j++ ) { char c="ab{}\"'[]*\n<>#/1"[vf_below(15)]; if( last=='*' && c=='/' ) c='.'; dput(c); last=c; } if( vf_chance(1,150) ) { for( size_t j=vf_range(200,600); j--; ) dput('\n'); last=' '; COUNT("long-comment"); } if( last=='*' && n ) dput(' '); dputs("*/"); COUNT("comment"); }
	}
}
static inline size_t utf8_of(uint32_t r, char o[4]) { if( r<0x80 ) { o[0]=(char)r; return 1; } if( r<0x800 ) { o[0]=(char)(0xC0|r>>6); o[1]=(char)(0x80|(r&63)); return 2; } if( r<0x10000 ) { o[0]=(char)(0xE0|r>>12); o[1]=(char)(0x80|(r>>6&63)); o[2]=(char)(0x80|(r&63)); return 3; } o[0]=(char)(0xF0|r>>18); o[1]=(char)(0x80|(r>>12&63)); o[2]=(char)(0x80|(r>>6&63)); o[3]=(char)(0x80|(r&63)); return 4; }
static inline bool special(char const *s) { return strstr(s,"<math")||strstr(s,"<enum>")||strstr(s,"<ENUM>")||!strcmp(s,"<include>")||!strcmp(s,"<INCLUDE>"); }
/* any text without NUL and without the parser's special marks */
static inline size_t rtext(char *o, size_t max) {
	do { if( max>=20 && vf_chance(1,50) ) { /* almost a special mark */ strcpy(o,(char const*[]){"<Include>","<includes>","<include","include>","<Enum>","<enum","< enum>","<ENum>","<mat h 1>","<Math 1>","<file>","<FILE>","<","<>","iota","true"}[vf_below(16)]); continue; }
		size_t k = vf_chance(1,12)? 0 : vf_chance(1,8)? vf_range(20,max/4) : vf_below(10), n=0; int style=(int)vf_below(4);
		for( size_t i=0; i<k && n+5<max; i++ ) { if( style==0 ) o[n++]="abcdefxyz.0123_ "[vf_below(16)]; else if( style==1 ) o[n++]="ab\"'\\n\t\nx.{}#/:,<>[]"[vf_below(20)]; else if( style==2 ) n+=utf8_of((uint32_t)(0xA0+vf_below(0x2000)),o+n); else o[n++]=(char)(1+vf_below(255)); } o[n]=0;
	} while( special(o) ); return strlen(o);
}
/* writes text s as a literal, choosing how each character is spelled */
static inline void g_lit(struct gen *g, char const *s, size_t n) {
	char q=vf_chance(2,3)? '"' : '\''; bool lastnum=false; dput(q);
	for( size_t i=0; i<n; i++ ) { unsigned char c=(unsigned char)s[i]; char b[16]; bool hexd=isxdigit(c)!=0;
		bool must = c=='\\' || c==(unsigned char)q || ((c=='\n' || c=='\r') && g->oneline_strings) || (g->in_file && (c=='\t' || c=='\r' || c=='\n'));
		if( must || (c<0x80 && (vf_chance(1,25) || (lastnum && hexd))) ) {
			static char const from[]="\a\b\t\n\v\f\r\\\"'", to[]="abtnvfr\\\"'"; char const *p=strchr(from,c);
			if( p && *p && vf_chance(3,4) ) { dput('\\'); dput(to[p-from]); lastnum=false; COUNT("escape"); }
			else if( (c=='$' || c=='@' || c=='`') && vf_chance(1,2) ) { snprintf(b,sizeof b,vf_chance(1,2)? "\\u%04x" : "\\U%08X",c); dputs(b); lastnum=false; COUNT("unicode-escape"); }
			else if( vf_chance(1,2) ) { snprintf(b,sizeof b,vf_chance(1,2)? "\\x%02x" : "\\X%X",c); dputs(b); lastnum=true; COUNT("hex-escape"); }
			else { snprintf(b,sizeof b,"\\%03o",c); dputs(b); lastnum=false; COUNT("octal-escape"); }
		} else if( c>=0xC3 && c<0xF0 && i+(c>=0xE0? 2 : 1)<n && (s[i+1]&0xC0)==0x80 && (c<0xE0 || (s[i+2]&0xC0)==0x80) && vf_chance(1,8) ) {
			uint32_t r = c<0xE0? (uint32_t)((c&31)<<6|(s[i+1]&63)) : (uint32_t)((c&15)<<12|(s[i+1]&63)<<6|(s[i+2]&63)); char u[4];
			if( utf8_of(r,u)!=(c<0xE0? 2u : 3u) || r<0xA0 || (r>=0xD800 && r<=0xDFFF) ) { dput((char)c); lastnum=false; continue; }
			snprintf(b,sizeof b,vf_chance(1,2)? "\\u%04X" : "\\U%08x",r); dputs(b); i+= c<0xE0? 1 : 2; lastnum=false; COUNT("unicode-escape");
		} else { dput((char)c); lastnum=false; }
	}
	dput(q);
}
static inline void g_intlit(struct gen *g, intmax_t v, bool sign_ok) {
	char b[200]; uintmax_t u = v<0? 0-(uintmax_t)v : (uintmax_t)v; if( v<0 ) dput('-'); else if( sign_ok && vf_chance(1,8) ) dput('+');
	size_t n=0; char d[80]; int base = vf_chance(1,2) || g->plain_numbers? 10 : (int[]){16,8,2}[vf_below(3)]; do { d[n++]="0123456789abcdef"[u%base]; u/=base; } while( u );
	if( base==16 ) dputs(vf_chance(1,2)? "0x" : "0X"); if( base==2 ) { dputs(vf_chance(1,2)? "0b" : "0B"); COUNT("binary"); } if( base==8 && !(n==1 && d[0]=='0') ) dput('0'); (void)b;
	bool sep = base==10 && n>1 && !g->plain_numbers && vf_chance(1,8); if( sep ) COUNT("separators");
	while( n ) { char c=d[--n]; dput(base==16 && vf_chance(1,2)? (char)toupper(c) : c); if( sep && n && vf_chance(1,2) ) dput('\''); }
	if( !g->plain_numbers && vf_chance(1,12) ) dputs((char const*[]){"u","L","ll","UL","llu","LLU","l","U"}[vf_below(8)]);
}
static inline long double g_fltlit(struct gen *g, bool allow_int) {
	char b[200]; size_t n=0; if( vf_chance(1,3) ) b[n++]=vf_chance(1,2)? '-' : '+'; bool hex = !g->plain_numbers && vf_chance(1,6); size_t p=n;
	if( hex ) { b[n++]='0'; b[n++]="xX"[vf_below(2)]; size_t k=vf_range(1,6); for( size_t i=0; i<k; i++ ) b[n++]="0123456789abcdefABCDEF"[vf_below(22)]; if( vf_chance(2,3) ) { b[n++]='.'; k=vf_below(5); for( size_t i=0; i<k; i++ ) b[n++]="0123456789abcdefABCDEF"[vf_below(22)]; } b[n++]="pP"[vf_below(2)]; if( vf_chance(1,2) ) b[n++]="+-"[vf_below(2)]; b[n++]=(char)('0'+vf_below(10)); if( vf_chance(1,3) ) b[n++]=(char)('0'+vf_below(10)); }
	else { size_t k=vf_range(1,vf_chance(1,8)? 24 : 6); bool lead=vf_chance(1,10); if( !lead ) { for( size_t i=0; i<k; i++ ) b[n++]=(char)((i || allow_int? '1' : '0')+vf_below(i||!allow_int? 9 : 9)); if( b[p]=='0' ) n=p+1; }
		bool dot = lead || vf_chance(3,4); if( dot ) { b[n++]='.'; k=vf_range(lead,8); for( size_t i=0; i<k; i++ ) b[n++]=(char)('0'+vf_below(10)); }
		if( (!dot && !allow_int) || vf_chance(1,4) ) { b[n++]="eE"[vf_below(2)]; if( vf_chance(1,2) ) b[n++]="+-"[vf_below(2)]; b[n++]=(char)('0'+vf_below(10)); if( vf_chance(1,3) ) b[n++]=(char)('0'+vf_below(10)); dot=true; }
		if( !dot ) { b[n]=0; dputs(b); return strtold(b,NULL); } }
	b[n]=0; bool sep = !hex && !g->plain_numbers && vf_chance(1,8); if( sep ) { size_t k=0; for( size_t i=0; i<n; i++ ) { dput(b[i]); if( i+1<n && isdigit((unsigned char)b[i]) && isdigit((unsigned char)b[i+1]) && vf_chance(1,2) ) { dput('\''); k++; } } if( k ) COUNT("float-separators"); } else dputs(b);
	if( !g->plain_numbers && vf_chance(1,8) ) dput("fFlL"[vf_below(4)]); return strtold(b,NULL);
}
/* "<math ...>": integer arithmetic whose value is known exactly */
static inline long double g_math(struct gen *g, char *o, size_t max) {
	size_t n=(size_t)snprintf(o,max,"<math "); long double v=0; size_t k=vf_range(1,4); 
	for( size_t i=0; i<k; i++ ) { long double t; char b[60]; switch( vf_below(6) ) { case 0: t=(long double)*g->li; strcpy(b,"iota"); break; case 1: t=(long double)g->gi; strcpy(b,"IOTA"); break; case 2: t=(long double)*g->le; strcpy(b,"enum"); break; case 3: t=(long double)g->ge; strcpy(b,"ENUM"); break; case 4: { long a=(long)vf_below(50), c=(long)vf_below(50); t=a*c; snprintf(b,sizeof b,"%ld*[%ld]",a,c); break; } default: { long a=(long)vf_below(100000); t=a; snprintf(b,sizeof b,"(%ld)",a); } }
		bool neg = i && vf_chance(1,3); n+=(size_t)snprintf(o+n,max-n,"%s%s",i? (neg? " - " : "+") : "",b); v = neg? v-t : v+t; }
	snprintf(o+n,max-n,">"); COUNT("math"); return v;
}
static inline void g_section(struct gen *g, struct node *p, size_t entries, bool top);
static inline struct node *g_value(struct gen *g, char const *key, size_t klen) {
	char b[2000]; struct node *x; unsigned pick=(unsigned)vf_below(g->depth<6 && g->budget? 22 : 17);
	if( pick>=17 ) { x=m_new(HarbolCfgType_Map,key,klen); dput('{'); long long li=0,le=0,*oli=g->li,*ole=g->le; g->li=&li; g->le=&le; g->depth++; g_section(g,x,vf_chance(1,6)? 0 : vf_range(1,5),false); g->depth--; g->li=oli; g->le=ole; dput('}'); COUNT("section"); return x; }
	switch( pick ) {
		case 0: case 1: case 2: { size_t n=rtext(b,600); g_lit(g,b,n); x=m_new(HarbolCfgType_String,key,klen); m_setstr(x,b,n); COUNT("string"); if( !n ) COUNT("empty-string"); return x; }
		case 3: { char a[80], z[80], m[400], e[1200]; size_t an,zn; do { an=rtext(a,60); zn=rtext(z,60); } while( 0 ); long double v=g_math(g,m,sizeof m); size_t n=(size_t)snprintf(b,sizeof b,"%s%s%s",a,m,z); g_lit(g,b,n); n=(size_t)snprintf(e,sizeof e,"%s%Lf%s",a,v,z); x=m_new(HarbolCfgType_String,key,klen); m_setstr(x,e,n); return x; }
		case 4: case 5: case 6: { intmax_t v = vf_chance(1,10)? (intmax_t[]){0,1,-1,INTMAX_MAX,INTMAX_MIN,INT32_MAX,INT32_MIN}[vf_below(7)] : vf_chance(1,4)? (intmax_t)vf_rand()>>vf_below(60) : (intmax_t)vf_below(2000)-1000; g_intlit(g,v,true); x=m_new(HarbolCfgType_Int,key,klen); x->i=v; COUNT("int"); return x; }
		case 7: case 8: { x=m_new(HarbolCfgType_Float,key,klen); x->f=g_fltlit(g,false); COUNT("float"); return x; }
		case 9: x=m_new(HarbolCfgType_Bool,key,klen); x->b=vf_chance(1,2); dputs(x->b? "true" : "false"); COUNT("bool"); return x;
		case 10: x=m_new(HarbolCfgType_Null,key,klen); dputs("null"); COUNT("null"); return x;
		case 11: { x=m_new(HarbolCfgType_Color,key,klen); dput('c'); g_ws(g,false); dput('['); size_t k=vf_range(1,4); for( size_t i=0; i<k; i++ ) { g_ws(g,i>0); x->c[i]=(uint8_t)vf_below(256); if( vf_chance(1,8) ) x->c[i]=vf_chance(1,2)? 255 : 0; g_intlit(g,x->c[i],false); } g_ws(g,vf_chance(1,2)); dput(']'); COUNT("color"); return x; }
		case 12: { x=m_new(HarbolCfgType_Vec4D,key,klen); dput('v'); g_ws(g,false); dput('['); size_t k=vf_range(1,4); for( size_t i=0; i<k; i++ ) { g_ws(g,i>0); x->v[i]=(float)g_fltlit(g,true); } g_ws(g,vf_chance(1,2)); dput(']'); COUNT("vector"); return x; }
		case 13: case 14: x=m_new(HarbolCfgType_Int,key,klen); if( pick==13 ) { dputs("iota"); x->i=(*g->li)++; } else { dputs("IOTA"); x->i=g->gi++; } COUNT("iota"); return x;
		case 15: x=m_new(HarbolCfgType_String,key,klen); dputs(vf_chance(1,2)? "<FILE>" : "<file>"); { char const *f=g->file? g->file : "C-string-cfg"; m_setstr(x,f,strlen(f)); } COUNT("file-name"); return x;
		default: { x=m_new(HarbolCfgType_Int,key,klen); x->i=(intmax_t)vf_below(10); dput((char)('0'+x->i)); return x; }
	}
}
static inline bool endnum(enum HarbolCfgType t) { return t==HarbolCfgType_Int || t==HarbolCfgType_Float; }
static inline void g_section(struct gen *g, struct node *p, size_t entries, bool top) {
	char k[3000], lit[3000]; (void)top;
	for( size_t e=0; e<entries && g->budget; e++ ) {
		size_t n; int tries=0; long long le=*g->le, ge=g->ge; bool usedm=false;
		do { le=*g->le; ge=g->ge; usedm=false; unsigned w=(unsigned)vf_below(16);
			if( tries++>20 ) snprintf(k,sizeof k,"k%zu_%zu",e,(size_t)vf_below(100000)); else if( w<8 ) { do n=rtext(k,60); while( n==0 ); } else if( w<12 ) snprintf(k,sizeof k,"%s%zu",(char const*[]){"key","a","section.","x\\y"}[vf_below(4)],(size_t)vf_below(12)); else if( w<15 ) snprintf(k,sizeof k,"%s",(char const*[]){"a","b","c","a.b","root","name"}[vf_below(6)]); else snprintf(k,sizeof k,"..%zu",(size_t)vf_below(9));
			strcpy(lit,k); if( tries<20 && vf_chance(1,10) ) { bool local=vf_chance(2,3); char pre[40], post[40]; rtext(pre,30); rtext(post,30); unsigned marks=vf_chance(2,3)? 1 : (unsigned)vf_range(2,4); bool ul=false, ug=false; size_t ln=(size_t)snprintf(lit,sizeof lit,"%s",pre), kn=(size_t)snprintf(k,sizeof k,"%s",pre); for( unsigned q=0; q<marks; q++ ) { if( q ) local=vf_chance(1,2); char const *mid = q+1<marks? (char const*[]){"","-","x","0"}[vf_below(4)] : post; ln+=(size_t)snprintf(lit+ln,sizeof lit-ln,"<%s>%s",local? "enum" : "ENUM",mid); kn+=(size_t)snprintf(k+kn,sizeof k-kn,"%lld%s",local? le : ge,mid); if( local ) ul=true; else ug=true; } if( special(k) || strstr(pre,"<") || strstr(post,">") || strstr(post,"<") ) { k[0]='a'; k[1]=0; strcpy(lit,k); } else { if( ul ) le++; if( ug ) ge++; COUNT("enum-key"); if( marks>1 ) COUNT("enum-marks"); } }
			else if( tries<20 && vf_chance(1,20) ) { char pre[40], post[40], m[400]; rtext(pre,30); rtext(post,30); struct gen h=*g; long double v=g_math(&h,m,sizeof m); snprintf(lit,sizeof lit,"%s%s%s",pre,m,post); snprintf(k,sizeof k,"%s%Lf%s",pre,v,post); if( special(k) || strstr(pre,"<") || strstr(post,"<") ) { k[0]='m'; k[1]=0; strcpy(lit,k); } else { usedm=true; COUNT("math-key"); } }
			n=strlen(k);
			/* the parser refuses a key already present, before and after substitution */
		} while( m_find(p,k,n) || m_find(p,lit,strlen(lit)) ); (void)usedm;
		*g->le=le; g->ge=ge; if( g->budget ) g->budget--;
		g_ws(g,false); g_lit(g,lit,strlen(lit)); if( vf_chance(2,3) ) dputs(": "); g_ws(g,false);
		struct node *x=g_value(g,k,n); m_add(p,x); vf_mix_bytes(k,n);
		if( endnum(x->type) ) dput(" ,\n\t:"[vf_below(5)]); else if( vf_chance(1,2) ) dput(','); if( vf_chance(1,6) ) dput('\n');
	}
	g_ws(g,false);
}
/* ---- comparison ---- */
static char cmp_path[400];
static inline bool feq(long double a, long double b) { return a==b && signbit(a)==signbit(b); }
struct tol { long double absolute, relative, frelative; };
static inline bool fclose_(long double got, long double want, struct tol const *t) { if( !t ) return feq(got,want); return fabsl(got-want) <= t->absolute + fabsl(want)*t->relative; }
static inline void cmp_tree(struct HarbolMap const *m, struct node const *x, struct tol const *t, char const *sig, char const *path) {
	CHECK(m && m->len==x->n,sig,"section '%s' holds %zu entries, expected %zu",path,m? m->len : 0,x->n);
	for( size_t i=0; i<x->n; i++ ) {
		struct node const *k=x->kid[i]; char here[300]; snprintf(here,sizeof here,"%.200s/%.80s",path,vf_quote(k->key,k->klen));
		CHECK(m->keylens[i]==k->klen+1 && !memcmp(m->keys[i],k->key,k->klen+1),sig,"entry %zu of '%s' has key %s, expected %s",i,path,vf_quote(m->keys[i],m->keylens[i]? m->keylens[i]-1 : 0),vf_quote(k->key,k->klen));
		struct HarbolVariant const *v=(void const*)m->datum[i]; CHECK(v==harbol_map_key_get(m,k->key,k->klen+1),sig,"'%s' is not found by its key",here);
		CHECK(v->tag==(int)k->type,sig,"'%s' has type %d, expected %d (%s)",here,v->tag,k->type,m_tname[k->type]); void const *d=v->data;
		switch( k->type ) {
			case HarbolCfgType_Map: cmp_tree(*(struct HarbolMap**)d,k,t,sig,here); break;
			case HarbolCfgType_String: { struct HarbolString const *s=*(struct HarbolString**)d; CHECK(s->len==k->slen && (k->slen==0 || (s->cstr && strlen(s->cstr)==k->slen && !memcmp(s->cstr,k->str,k->slen))),sig,"'%s' is %s (%zu), expected %s (%zu)",here,s->cstr? vf_quote(s->cstr,strlen(s->cstr)) : "(none)",s->len,vf_quote(k->str,k->slen),k->slen); break; }
			case HarbolCfgType_Float: { long double f=*(floatmax_t*)d; CHECK(v->size==sizeof(floatmax_t) && fclose_(f,k->f,t),sig,"'%s' is %.21Lg, expected %.21Lg",here,f,k->f); break; }
			case HarbolCfgType_Int: CHECK(v->size==sizeof(intmax_t) && *(intmax_t*)d==k->i,sig,"'%s' is %jd, expected %jd",here,*(intmax_t*)d,k->i); break;
			case HarbolCfgType_Bool: CHECK(*(bool*)d==k->b,sig,"'%s' is %d, expected %d",here,*(bool*)d,k->b); break;
			case HarbolCfgType_Color: { uint8_t const *c=d; CHECK(!memcmp(c,k->c,4),sig,"'%s' is color %u %u %u %u, expected %u %u %u %u",here,c[0],c[1],c[2],c[3],k->c[0],k->c[1],k->c[2],k->c[3]); break; }
			case HarbolCfgType_Vec4D: { float const *f=d; for( int j=0; j<4; j++ ) { struct tol ft=t? (struct tol){t->absolute,t->frelative,0} : (struct tol){0,0,0}; CHECK(fclose_(f[j],k->v[j],t? &ft : NULL),sig,"'%s' component %d is %.12g, expected %.12g",here,j,f[j],k->v[j]); } break; }
			default: break;
		}
	}
}
/* dotted path of a node; false when a component can't be written in a path */
static inline bool m_path(struct node const *x, char *o, size_t max) {
	struct node const *st[64]; size_t d=0; for( ; x->up && d<64; x=x->up ) st[d++]=x; size_t n=0;
	while( d ) { struct node const *k=st[--d]; for( size_t i=0; i<k->klen; i++ ) { if( n+4>max ) return false; if( k->key[i]=='.' ) o[n++]='\\'; o[n++]=k->key[i]; } if( d ) { if( k->key[k->klen-1]=='\\' ) return false; o[n++]='.'; } }
	o[n]=0; return n>0;
}
static inline struct node *m_pick(struct node *root) { size_t c=m_count(root)-1; if( !c ) return NULL; size_t w=vf_below(c); struct node *st[3000]; size_t sp=0; st[sp++]=root; struct node *x=NULL; while( sp ) { struct node *y=st[--sp]; if( y!=root ) { if( w--==0 ) { x=y; break; } } for( size_t i=y->n; i-->0 && sp<2999; ) st[sp++]=y->kid[i]; } return x; }
/* what every getter must say about one path */
static inline void check_get(struct HarbolMap const *cfg, char const *path, struct node const *x, char const *sig) {
	char *p=vf_exact_str(path,strlen(path)); size_t len=777; enum HarbolCfgType t=harbol_cfg_get_type(cfg,p);
	CHECK(t==(x? x->type : HarbolCfgType_Invalid),sig,"type of path %s is %d, expected %d",vf_quote(p,strlen(p)),t,x? (int)x->type : -1); t = x? x->type : HarbolCfgType_Invalid;
	struct HarbolMap *m=harbol_cfg_get_section(cfg,p); CHECK((m!=NULL)==(t==HarbolCfgType_Map),sig,"section at %s: %p",vf_quote(p,strlen(p)),(void*)m); if( m ) CHECK(m->len==x->n,sig,"section at %s holds %zu entries, expected %zu",vf_quote(p,strlen(p)),m->len,x->n);
	struct HarbolString *s=harbol_cfg_get_str(cfg,p); CHECK((s!=NULL)==(t==HarbolCfgType_String),sig,"string at %s: %p",vf_quote(p,strlen(p)),(void*)s); char *cs=harbol_cfg_get_cstr(cfg,p,&len); if( s ) { CHECK(s->len==x->slen && (x->slen==0 || (s->cstr && strlen(s->cstr)==x->slen && !memcmp(s->cstr,x->str,x->slen))),sig,"string at %s is %s, expected %s",vf_quote(p,strlen(p)),s->cstr? s->cstr : "(none)",vf_quote(x->str,x->slen)); CHECK(cs==s->cstr && len==x->slen,sig,"text at %s: other than its string's, or length %zu instead of %zu",vf_quote(p,strlen(p)),len,x->slen); } else CHECK(cs==NULL,sig,"text at %s",vf_quote(p,strlen(p)));
	floatmax_t *f=harbol_cfg_get_float(cfg,p); CHECK((f!=NULL)==(t==HarbolCfgType_Float) && (!f || *f==x->f),sig,"float at %s: %s %Lg",vf_quote(p,strlen(p)),f? "yes" : "no",f? *f : 0);
	intmax_t *i=harbol_cfg_get_int(cfg,p); CHECK((i!=NULL)==(t==HarbolCfgType_Int) && (!i || *i==x->i),sig,"int at %s: %s %jd",vf_quote(p,strlen(p)),i? "yes" : "no",i? *i : 0);
	bool *b=harbol_cfg_get_bool(cfg,p); CHECK((b!=NULL)==(t==HarbolCfgType_Bool) && (!b || *b==x->b),sig,"bool at %s: %s",vf_quote(p,strlen(p)),b? "yes" : "no");
	union HarbolColor *c=harbol_cfg_get_color(cfg,p); CHECK((c!=NULL)==(t==HarbolCfgType_Color) && (!c || !memcmp(c->array,x->c,4)),sig,"color at %s: %s",vf_quote(p,strlen(p)),c? "yes" : "no"); if( c ) CHECK(c->bytes.r==x->c[0] && c->bytes.g==x->c[1] && c->bytes.b==x->c[2] && c->bytes.a==x->c[3],sig,"color channels at %s",p);
	struct HarbolVec4D *v=harbol_cfg_get_vec4D(cfg,p); CHECK((v!=NULL)==(t==HarbolCfgType_Vec4D) && (!v || (v->x==x->v[0] && v->y==x->v[1] && v->z==x->v[2] && v->w==x->v[3])),sig,"vector at %s: %s",vf_quote(p,strlen(p)),v? "yes" : "no");
	vf_xfree(p);
}
/* a path near an existing one that leads nowhere; false if none was found */
static inline bool absent_path(struct node *root, char *o, size_t max) {
	struct node *x=m_pick(root); char p[1200]; p[0]=0; if( x && !m_path(x,p,sizeof p-40) ) return false; size_t n=strlen(p);
	switch( vf_below(6) ) {
		case 0: if( !n ) return false; if( x->type==HarbolCfgType_Map ) { if( m_find(x,"nope",4) ) return false; } if( p[n-1]=='\\' ) return false; snprintf(o,max,"%s.nope",p); return true; /* below a value or section */
		case 1: { struct node *up = x? x->up : root; (void)up; char *d=NULL; for( char *q=p; *q; q++ ) if( *q=='.' && (q==p || q[-1]!='\\') ) d=q; if( d ) d[1]=0; else p[0]=0; if( m_find(x? x->up : root,"absent",6) ) return false; snprintf(o,max,"%sabsent",p); return true; }
		case 2: { if( !n || x->klen<2 ) return false; struct node *up=x->up; if( m_find(up,x->key,x->klen-1) || x->key[x->klen-1]=='.' || x->key[x->klen-2]=='\\' || x->key[x->klen-1]=='\\' ) return false; p[n-1]=0; snprintf(o,max,"%s",p); return true; } /* key cut by one */
		case 3: { if( !n ) return false; char k2[1300]; if( x->klen>1000 || x->key[x->klen-1]=='\\' ) return false; memcpy(k2,x->key,x->klen); k2[x->klen]='q'; if( m_find(x->up,k2,x->klen+1) ) return false; snprintf(o,max,"%sq",p); return true; } /* key extended */
		case 4: { if( !n || x->up==root ) return false; struct node *up=x->up; if( up->key[up->klen-1]=='\\' || memchr(x->key,'.',x->klen) ) return false; if( m_find(root,x->key,x->klen) ) return false; snprintf(o,max,"%s",x->key); return true; } /* nested key looked up at the top */
		default: { if( !n || x->type==HarbolCfgType_Map || memchr(x->key,'.',x->klen) || x->key[x->klen-1]=='\\' ) return false; snprintf(o,max,"%s.%s",p,x->key); return true; } /* a value followed by its own name */
	}
}
#endif
