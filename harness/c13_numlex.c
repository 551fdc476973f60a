/* C13: the number scanners against a grammar: every generated valid literal is consumed exactly and converts to its value,
 * known-malformed literals are rejected, whatever is accepted is a literal of the grammar, nothing is read outside the text. */
#include "vf.h"
#include <unistd.h>
#include "lex/lex.h"
enum kind { CDEC, CHEX, COCT, CBIN, GDEC, GHEX, GOCT, GBIN, CNUM, GNUM, NKIND };
static char const *const kname[] = {"lex_c_style_decimal","lex_c_style_hex","lex_c_style_octal","lex_c_style_binary","lex_go_style_decimal","lex_go_style_hex","lex_go_style_octal","lex_go_style_binary","lex_c_style_number","lex_go_style_number"};
static bool is_go(enum kind k) { return (k>=GDEC && k<=GBIN) || k==GNUM; }
static enum HarbolLexErrType call(enum kind k, char const *s, char const **end, struct HarbolString *b, bool *f) {
	switch( k ) {
	case CDEC: return lex_c_style_decimal(s,end,b,f); case CHEX: return lex_c_style_hex(s,end,b,f); case COCT: return lex_c_style_octal(s,end,b,f); case CBIN: return lex_c_style_binary(s,end,b);
	case GDEC: return lex_go_style_decimal(s,end,b,f); case GHEX: return lex_go_style_hex(s,end,b,f); case GOCT: return lex_go_style_octal(s,end,b); case GBIN: return lex_go_style_binary(s,end,b);
	case CNUM: return lex_c_style_number(s,end,b,f); default: return lex_go_style_number(s,end,b,f);
	}
}
/* ---- recognizer: length of s is n; true when all of it is one literal */
static char const *S; static size_t N, P; static char SEP;
static bool in(char c, int base) { if( c>='0' && c<='9' ) return c-'0'<base; c|=32; return base==16 && c>='a' && c<='f'; }
static bool digs(int base, bool lead) { size_t p=P; bool any=false; if( lead && p<N && S[p]==SEP ) p++; while( p<N ) { if( in(S[p],base) ) { p++; any=true; } else if( S[p]==SEP && any && p+1<N && in(S[p+1],base) ) p++; else break; } if( any ) P=p; return any; }
static bool at(char lo) { return P<N && (S[P]|32)==lo; }
static bool intsuf(void) { unsigned u=0,l=0; while( P<N ) { if( at('u') ) { if( u ) return false; u=1; P++; } else if( at('l') ) { if( l ) return false; l=1; P++; if( at('l') ) P++; } else return false; } return true; }
static bool fltsuf(void) { if( at('f') || at('l') ) P++; return P==N; }
static bool exponent(char mark) { if( !at(mark) ) return false; P++; if( P<N && (S[P]=='+'||S[P]=='-') ) P++; return digs(10,false); }
static bool grammar(enum kind k, char const *s, size_t n, bool *flt) {
	S=s; N=n; P=0; *flt=false; bool go=is_go(k); SEP = go? '_' : '\'';
	if( k==CNUM || k==GNUM ) { char c = n>1 && s[0]=='0'? (char)(s[1]|32) : 0; k = c=='x'? (go? GHEX:CHEX) : c=='b'? (go? GBIN:CBIN) : go && c=='o'? GOCT : go? GDEC : n>1 && s[0]=='0' && s[1]>='0' && s[1]<='9'? COCT : CDEC; }
	switch( k ) {
	case CBIN: case GBIN: case GOCT: if( n<3 || s[0]!='0' || (s[1]|32)!=(k==GOCT? 'o':'b') ) return false; P=2; if( !digs(k==GOCT?8:2,true) ) return false; return k==CBIN? intsuf() : P==N;
	case CHEX: case GHEX: { if( n<3 || s[0]!='0' || (s[1]|32)!='x' ) return false; P=2; bool a=digs(16,true), b=false, dot=false; if( P<N && S[P]=='.' ) { if( !a && !go ) return false; dot=true; P++; b=digs(16,false); } if( !a && !b ) return false;
		if( at('p') ) { *flt=true; if( !exponent('p') ) return false; return go? P==N : fltsuf(); } if( dot ) return false; return go? P==N : intsuf(); }
	case COCT: case CDEC: case GDEC: { if( k==COCT && (n<1 || s[0]!='0') ) return false; bool a=digs(k==COCT?8:10,true), b=false; if( P<N && S[P]=='.' ) { *flt=true; P++; b=digs(10,false); } if( !a && !b ) return false;
		if( (k!=COCT || *flt) && at('e') ) { *flt=true; if( !exponent('e') ) return false; } return go? P==N : *flt? fltsuf() : intsuf(); }
	default: return false;
	}
}
/* ---- generator */
static char g[400]; static size_t gn;
static void put(char c) { g[gn++]=c; }
static char casing(char c) { return vf_chance(1,3)? (char)(c-32) : c; }
static bool seps;
static void gdigs(int base, size_t n, bool nozero) { for( size_t i=0; i<n; i++ ) { unsigned d=(unsigned)vf_below((size_t)base); if( i==0 && nozero && d==0 ) d=1; put(d<10? (char)('0'+d) : casing((char)('a'+d-10))); if( seps && i+1<n && vf_chance(1,4) ) put(SEP); } }
static void gintsuf(void) { unsigned r=(unsigned)vf_below(9); char l=casing('l'); if( r==1||r==4||r==5 ) put(casing('u')); if( r>=2 && r<=7 ) { put(l); if( r==3||r==5||r==7 ) put(l); } if( r==6||r==7 ) put(casing('u')); }
/* value range kept within 64 bits so that conversions are exact */
static void gliteral(enum kind k, bool *flt, bool *hexf) {
	gn=0; *flt=*hexf=false; bool go=is_go(k); SEP=go? '_':'\''; seps=vf_chance(1,3);
	switch( k ) {
	case CBIN: case GBIN: put('0'); put(casing('b')); gdigs(2,vf_range(1,vf_chance(1,4)? 64:8),false); if( !go ) gintsuf(); break;
	case GOCT: put('0'); put(casing('o')); if( vf_chance(1,6) ) put('1'), gdigs(8,21,false); else gdigs(8,vf_range(1,21),false); break;
	case COCT: put('0'); if( seps && vf_chance(1,3) ) put(SEP), gdigs(8,vf_range(1,12),false); else if( vf_chance(1,6) ) put('1'), gdigs(8,21,false); else gdigs(8,vf_range(1,21),false); if( vf_chance(1,5) ) { *flt=true; put('.'); gdigs(10,vf_range(1,6),false); if( vf_chance(1,2) ) { put(casing('e')); if( vf_chance(1,2) ) put(vf_chance(1,2)?'+':'-'); gdigs(10,vf_range(1,2),false); } if( vf_chance(1,3) ) put(vf_chance(1,2)? casing('f') : casing('l')); } else gintsuf(); break;
	case CHEX: case GHEX: { put('0'); put(casing('x')); bool f=vf_chance(2,5); size_t a = f? vf_range(go?0:1,12) : vf_chance(1,6)? 16 : vf_range(1,16), b=f? vf_range(0,4) : 0; bool dot=f && (a==0 || b || vf_chance(1,3)); if( a==0 && b==0 ) b=1; gdigs(16,a,false); if( dot ) { put('.'); gdigs(16,b,false); }
		if( f ) { *flt=*hexf=true; put(casing('p')); if( vf_chance(1,2) ) put(vf_chance(1,2)?'+':'-'); gdigs(10,vf_range(1,3),false); if( !go && vf_chance(1,3) ) put(vf_chance(1,2)? casing('f') : casing('l')); } else if( !go ) gintsuf(); break; }
	default: { bool f=vf_chance(1,2); if( !f ) { if( vf_chance(1,8) ) put('0'); else if( vf_chance(1,6) ) { gn+=(size_t)sprintf(g+gn,"%" PRIu64, vf_chance(1,3)? UINT64_MAX-vf_below(3) : vf_chance(1,2)? (uint64_t)INT64_MAX-1+vf_below(3) : vf_rand()|1); } else gdigs(10,vf_range(1,18),true); if( !go ) gintsuf(); break; }
		*flt=true; size_t a=vf_chance(1,5)? 0 : vf_range(1,10), b=vf_range(a==0,6); bool dot = a==0 || b || vf_chance(1,3), e = !dot || vf_chance(1,2); if( a && vf_chance(1,5) ) put('0'); else gdigs(10,a,true); if( dot ) { put('.'); gdigs(10,b,false); }
		if( e ) { put(casing('e')); if( vf_chance(1,2) ) put(vf_chance(1,2)?'+':'-'); gdigs(10,vf_range(1,2),false); } if( !go && vf_chance(1,3) ) put(vf_chance(1,2)? casing('f') : casing('l')); break; }
	}
	g[gn]=0;
}
static struct HarbolString lb; static char const *kn;
static enum HarbolLexErrType scan(enum kind k, char const *text, size_t n, size_t *used, bool *flt) {
	char *y=vf_exact_str(text,n); char const *end=(char const*)1; harbol_string_clear(&lb); *flt=false; char const *me=kname[k];
	enum HarbolLexErrType r=call(k,y,&end,&lb,flt); OP("%s(%s) -> %d", me, vf_quote(text,n), r);
	CHECK(end!=(char const*)1, "num-end-unset", "%s(%s) returned %d without setting the end", me, vf_quote(text,n), r);
	CHECK(end>=y && end<=y+n, "num-end-outside", "%s(%s) left the end %zd bytes from the start of %zu", me, vf_quote(text,n), (ssize_t)(end-y), n);
	CHECK(!memcmp(y,text,n+1), "num-source", "the text changed");
	CHECK(lb.cstr==NULL? lb.len==0 : strlen(lb.cstr)==lb.len, "num-lexeme", "lexeme of length %zu is not a string", lb.len);
	*used=(size_t)(end-y); char const *m=lex_get_err(r); CHECK(m && *m && (r==HarbolLexNoErr)==!strcmp(m,lex_get_err(HarbolLexNoErr)), "num-error-text", "error %d has no message", r);
	if( r==HarbolLexNoErr ) CHECK(lb.len==*used && (!*used || !memcmp(lb.cstr,text,*used)), "num-lexeme", "%s(%s) consumed %zu bytes but the lexeme is %s", me, vf_quote(text,n), *used, vf_quote(lb.cstr,lb.len));
	vf_xfree(y); return r;
}
static void done(void) { harbol_string_clear(&lb); vf_leak_check("num-leak"); }
static char const follow[] = " \t\n;,)]}*/%=<>&|^!~?:\"";
static void valid(uint64_t idx) {
	bool flt, hexf, got, gf; size_t used; enum kind k=(enum kind)vf_below(8); gliteral(k,&flt,&hexf); size_t n=gn; vf_mix_bytes(g,gn); vf_mix(k);
	if( !grammar(k,g,gn,&gf) || gf!=flt ) { fprintf(stderr,"VF-HARNESS generator/grammar disagree on %d %s\n",k,g); _exit(3); }
	/* what follows must not change where the literal ends */
	char text[500]; memcpy(text,g,n); size_t tn=n; if( vf_chance(3,4) ) { bool sign = vf_chance(1,3) && !(k==CHEX && !flt); text[tn++] = sign? "+-"[vf_below(2)] : follow[vf_below(sizeof follow-1)]; size_t x=vf_below(6); for( size_t i=0; i<x; i++ ) text[tn++]="0123456789.eExXpu'_ +-"[vf_below(22)]; if( sign ) COUNT("sign-follows"); else COUNT("text-follows"); } else COUNT("end-follows"); text[tn]=0;
	enum kind disp = is_go(k)? GNUM : CNUM; bool sepfree=!memchr(g,SEP,n); char lit[400]; memcpy(lit,g,n+1);
	for( int pass=0; pass<2; pass++ ) {
		enum kind kk = pass? disp : k; enum HarbolLexErrType r=scan(kk,text,tn,&used,&got);
		CHECK(r==HarbolLexNoErr, "num-valid-rejected", "%s rejects the literal %s of %s: %s", kname[kk], lit, vf_quote(text,tn), lex_get_err(r));
		CHECK(used==n, "num-valid-end", "%s consumed %zu of %s, the literal is %zu bytes", kname[kk], used, vf_quote(text,tn), n);
		CHECK(got==flt, "num-float-flag", "%s says float=%d for %s", kname[kk], got, lit);
		COUNT("accepted"); if( flt ) COUNT("float"); if( !sepfree ) COUNT("with-separators");
		if( !sepfree ) continue;
		if( flt ) { long double v=strtold(lit,NULL), w=lex_string_to_float(&lb); CHECK(v==w, "num-float-value", "%s converts to %Lg, expected %Lg", lit, w, v); COUNT("float-converted"); }
		else {
			char d[400]; size_t m=0; int base=10; uint64_t v=0; size_t i=0; char c=(char)(lit[1]|32); if( lit[0]=='0' && n>1 ) { if( c=='x' ) base=16,i=2; else if( c=='b' ) base=2,i=2; else if( c=='o' ) base=8,i=2; else if( in(lit[1],8) ) base=8,i=1; }
			for( ; i<n && in(lit[i],base); i++ ) { unsigned q=(unsigned)(lit[i]<='9'? lit[i]-'0' : (lit[i]|32)-'a'+10); v=v*(unsigned)base+q; } (void)d; (void)m;
			char *e1=NULL, *e2=NULL; intmax_t s1 = is_go(k)? lex_go_string_to_int(&lb,&e1) : lex_c_string_to_int(&lb,&e1); uintmax_t u1 = is_go(k)? lex_go_string_to_uint(&lb,&e2) : lex_c_string_to_uint(&lb,&e2);
			if( v<=INT64_MAX ) CHECK((uint64_t)s1==v && e1==lb.cstr+i, "num-int-value", "%s converts to %jd, expected %" PRIu64, lit, s1, v); CHECK(u1==v && e2==lb.cstr+i, "num-uint-value", "%s converts to %ju, expected %" PRIu64, lit, u1, v);
			if( i==n ) { if( is_go(k) ) CHECK((uint64_t)lex_go_string_to_uint(&lb,NULL)==v,"num-int-value","without end pointer"); else CHECK((uint64_t)lex_c_string_to_uint(&lb,NULL)==v,"num-int-value","without end pointer"); }
			COUNT("int-converted"); if( v>INT64_MAX ) COUNT("beyond-intmax"); }
	}
	done(); (void)idx;
}
/* ---- malformed: a valid piece with one definite mistake */
#define BAD(cond, code, ...) if( cond ) { int w_=snprintf(g,sizeof g,__VA_ARGS__); gn=(size_t)w_; want=(code); break; } goto again
static void malformed(uint64_t idx) {
	bool got; size_t used; enum kind k; int want=-1; char a[40], b[40], q[3]={0}; char const *E; (void)idx;
again:
	k=(enum kind)vf_below(8); bool go=is_go(k); SEP=go? '_':'\''; seps=false; q[0]=SEP; int base = k==CHEX||k==GHEX? 16 : k==COCT||k==GOCT? 8 : k==CBIN||k==GBIN? 2 : 10;
	char const *pre = base==16? (vf_chance(1,2)?"0x":"0X") : base==2? "0b" : k==GOCT? "0o" : k==COCT? "0" : "";
	gn=0; gdigs(base,vf_range(1,6),base==10); g[gn]=0; strcpy(a,g); gn=0; gdigs(10,vf_range(1,3),false); g[gn]=0; strcpy(b,g);
	bool dec=base==10, hex=base==16, c=!go; E = hex? "p":"e"; want=-1; char const *sx[]={"","u","l","ul","ll","ull","f"};
	char const *F = vf_chance(1,2)? "f":"F";
	switch( vf_below(42) ) {
	case 0: BAD(true, HarbolLexExtraDigitSeps, "%s%s%s%s1", pre,a,q,q);
	case 1: BAD(true, HarbolLexDigitSepNotSepDigits, "%s%s%s", pre,a,q);
	case 2: BAD(k!=COCT && *pre, -1, "%s", pre);
	case 3: BAD(base==2, HarbolLexBadGylph, "%s%s%d", pre,a,(int)vf_range(2,9));
	case 4: BAD(base==8, HarbolLexBadGylph, "%s%s%d", pre,a,(int)vf_range(8,9));
	case 5: BAD(true, -1, "%s%s%c", pre,a,"ghijkmnoqrstvwyzGHIJ"[vf_below(20)]);
	case 6: BAD(c, HarbolLexTooManyUs, "%s%su%s", pre,a,vf_chance(1,2)?"u":"U");
	case 7: BAD(c, HarbolLexTooManyLs, "%s%slll", pre,a);
	case 8: BAD(c, HarbolLexUBetweenLs, "%s%slul", pre,a);
	case 9: BAD(c, HarbolLexIntExtraSuffix, "%s%s%s1", pre,a,sx[vf_range(1,5)]);
	case 10: BAD(dec, HarbolLexExtraFltDot, "%s.%s.", a,vf_chance(1,2)?b:"");
	case 11: BAD(dec, HarbolLexNoNumAfterExp, "%s%s%s", a,E,vf_chance(1,2)?"":vf_chance(1,2)?"+":"-");
	case 12: BAD(dec, HarbolLexExtraExp, "%s%s%s%s", a,E,b,E);
	case 13: BAD(dec, HarbolLexDigitSepNearDot, "%s%s.%s", a,q,b);
	case 14: BAD(dec, HarbolLexDigitSepNearDot, "%s.%s%s", a,q,b);
	case 15: BAD(dec, -1, "%s%s%s%s", a,q,E,b);
	case 16: BAD(dec, -1, "%s%s%s%s", a,E,q,b);
	case 17: BAD(dec && c, HarbolLexMissingDotOrExp, "%s%s", a,F);
	case 18: BAD(dec && c, HarbolLexExtraFltSuffix, "%s.%s%s%s", a,b,F,F);
	case 19: BAD(dec && c, HarbolLexIntSuffixOnFlt, "%s.%su", a,b);
	case 20: BAD(dec && c, HarbolLexIntSuffixOnFlt, "%s%s%sll", a,E,b);
	case 21: BAD(dec && c, -1, "%s.%s%s%s", a,b,vf_chance(1,2)?"fl":"lf",vf_chance(1,2)?"":"1");
	case 22: BAD(dec && c, HarbolLexExpAfterFltSuffix, "%s.%s%se5", a,b,F);
	case 23: BAD(dec && c, -1, "%s%se5", a,sx[vf_range(1,5)]);
	case 24: BAD(dec, -1, "%s%s%s.5", a,E,b);
	case 25: BAD(c && base!=2, -1, "%s%s%s.5", pre,a,sx[vf_range(1,5)]);
	case 26: BAD(dec && c, HarbolLexFltExtraSuffix, "%s.%s%s1", a,b,F);
	case 27: { static char const *const lone[]={".","..","e5",".e5","e",".e","E+1",".E-2"}; BAD(dec, -1, "%s", lone[vf_below(8)]); }
	case 28: BAD(hex, HarbolLexTooManyPs, "%s%sp%sp", pre,a,b);
	case 29: BAD(hex, HarbolLexHexFltNoExp, "%s%s.%s", pre,a,b);
	case 30: BAD(hex, HarbolLexHexNoDigitsB4Exp, "%sp%s", pre,b);
	case 31: BAD(hex, -1, "%s%sp%s", pre,a,vf_chance(1,2)?"":vf_chance(1,2)?"+":"-");
	case 32: BAD(hex, -1, "%s%s.%s.%sp1", pre,a,b,vf_chance(1,2)?b:"");
	case 33: BAD(hex, -1, "%s%sp%s%c", pre,a,b,"abcdeABCDE"[vf_below(10)]);
	case 34: BAD(hex, HarbolLexDigitSepNearDot, "%s%s%s.%sp1", pre,a,q,b);
	case 35: BAD(hex, HarbolLexDigitSepNearDot, "%s%s.%s%sp1", pre,a,q,b);
	case 36: BAD(hex, HarbolLexDigitSepNearExp, vf_chance(1,2)? "%s%s%sp%s" : "%s%sp%s%s", pre,a,q,b);
	case 37: BAD(hex && c, -1, "%s%sp%s%s", pre,a,b,vf_chance(1,3)?"u":vf_chance(1,2)?"ll":vf_chance(1,2)?"fl":"ff");
	case 38: BAD(hex && c, -1, "%s%s%sp1", pre,a,sx[vf_range(1,5)]);
	case 40: BAD(hex, -1, "%s%sp%s.%s", pre,a,b,vf_chance(1,2)? b : "");
	case 41: BAD(hex, -1, "%s%s.%sp%s.%s", pre,a,b,b,vf_chance(1,2)? b : "");
	case 39: BAD(hex || base==2 || k==GOCT, -1, "%s%s", vf_chance(1,2)? "1x" : "x", a);
	}
	if( vf_chance(1,2) ) for( size_t i=0; i<gn; i++ ) if( g[i]>='a' && g[i]<='z' && vf_chance(1,2) ) g[i]-=32; /* case never matters */
	bool gf; if( gn && grammar(k,g,gn,&gf) ) { fprintf(stderr,"VF-HARNESS malformed literal is in the grammar: %d %s\n",k,g); _exit(3); }
	vf_mix_bytes(g,gn); vf_mix(k); char lit[400]; memcpy(lit,g,gn+1); size_t n=gn;
	if( vf_chance(1,3) ) { lit[n++]=follow[vf_below(sizeof follow-1)]; lit[n]=0; }
	enum HarbolLexErrType r=scan(k,lit,n,&used,&got);
	CHECK(r!=HarbolLexNoErr, "num-malformed-accepted", "%s accepts %zu bytes of the malformed %s", kname[k], used, vf_quote(lit,n));
	if( want>=0 ) { CHECK((int)r==want, "num-error-code", "%s(%s) reports '%s' instead of '%s'", kname[k], vf_quote(lit,n), lex_get_err(r), lex_get_err((enum HarbolLexErrType)want)); COUNT("exact-error-code"); }
	COUNT("malformed-rejected"); done();
}
/* ---- arbitrary text: whatever is accepted belongs to the grammar and is as long as possible */
static void arbitrary(uint64_t idx) {
	static char const al[] = "0123456789abcdefABCDEFxXbBoOpPuUlL.'_+-eE01eE.. \n\xC3\xFF"; char t[80]; size_t n=0, used; bool got, gf; (void)idx;
	if( vf_chance(1,2) ) { bool f,h; gliteral((enum kind)vf_below(8),&f,&h); if( gn>60 ) gn=60; memcpy(t,g,gn); n=gn; size_t m=vf_range(1,3); for( size_t i=0; i<m; i++ ) { char c=al[vf_below(sizeof al-1)]; size_t p=vf_below(n+1); switch( vf_below(3) ) { case 0: if( p<n ) t[p]=c; break; case 1: memmove(t+p+1,t+p,n-p); t[p]=c; n++; break; default: if( p<n && n>1 ) { memmove(t+p,t+p+1,n-p-1); n--; } } } }
	else { n=vf_below(vf_chance(1,3)? 4:14); for( size_t i=0; i<n; i++ ) t[i]=al[vf_below(sizeof al-1)]; if( n>2 && vf_chance(1,2) ) { t[0]='0'; if( vf_chance(1,2) ) t[1]="xXbBoO"[vf_below(6)]; } }
	t[n]=0; n=strlen(t); vf_mix_bytes(t,n); bool accepted=false;
	for( enum kind k=0; k<NKIND; k++ ) {
		char sep=is_go(k)? '_':'\''; enum HarbolLexErrType r=scan(k,t,n,&used,&got);
		if( n==0 ) { CHECK(r==HarbolLexEoF && used==0,"num-empty","%s of empty text returned %d",kname[k],r); COUNT("empty-text"); continue; }
		if( r!=HarbolLexNoErr ) { COUNT("rejected"); continue; }
		accepted=true; COUNT("accepted-arbitrary");
		CHECK(grammar(k,t,used,&gf), "num-nonliteral-accepted", "%s(%s) accepts %s, which is not a number literal", kname[k], vf_quote(t,n), vf_quote(t,used));
		CHECK(gf==got, "num-float-flag", "%s(%s) float flag %d", kname[k], vf_quote(t,n), got);
		char nx=t[used]; CHECK(!(nx>0 && (in(nx,10) || (nx>='a'&&nx<='z') || (nx>='A'&&nx<='Z') || (nx=='.' && !(used>1 && ((t[1]|32)=='b' || (t[1]|32)=='o'))) || nx==sep)), "num-cut-short", "%s(%s) stops inside the word after %zu bytes", kname[k], vf_quote(t,n), used);
		if( used<n ) COUNT("accepted-prefix");
	}
	if( n==0 ) vf_trivial(); (void)accepted; done();
}
/* ---- base conversion helpers */
static void convert(uint64_t idx) {
	static char const nums[]="0123456789abcdefghijklmnopqrstuvwxyz"; int base=(int)vf_range(2,36); char num[40]; memcpy(num,nums,(size_t)base); num[base]=0; (void)idx;
	if( vf_chance(1,3) ) for( int i=base-1; i>0; i-- ) { size_t j=vf_below((size_t)i+1); char c=num[i]; num[i]=num[j]; num[j]=c; }
	int32_t rnum[40]; for( int i=0; i<=base; i++ ) rnum[i] = num[i]? num[i]+(base>30? 0x3B1:0) : 0;
	uint64_t v = vf_chance(1,4)? vf_rand() : vf_chance(1,3)? (vf_chance(1,2)? UINT64_MAX : (uint64_t)INT64_MAX)-vf_below(3)+vf_below(3)*(vf_chance(1,2)) : vf_rand()>>vf_below(64); bool neg=vf_chance(1,2);
	char t[100]; size_t n=0; char rev[100]; size_t m=0; uint64_t x=v; do { rev[m++]=num[x%(unsigned)base]; x/=(unsigned)base; } while( x ); size_t z=vf_below(3); while( z-- ) rev[m++]=num[0];
	bool toolong=vf_chance(1,8); if( toolong ) { for( size_t i=0; i<66; i++ ) rev[m<98? m++ : m-1]=num[base-1]; }
	if( neg ) t[n++]='-'; while( m ) t[n++]=rev[--m]; t[n]=0; bool bad=vf_chance(1,6); if( bad ) t[(neg?1:0)+vf_below(n-(neg?1:0))]='#'; vf_mix_bytes(t,n); vf_mix((uint64_t)base);
	int32_t rt[100]; for( size_t i=0; i<=n; i++ ) rt[i] = t[i]? t[i]+(base>30 && t[i]!='-'? 0x3B1:0) : 0;
	char *y=vf_exact_str(t,n), *yn=vf_exact_str(num,(size_t)base); int32_t *ry=vf_exact_buf(rt,(n+1)*4), *rn=vf_exact_buf(rnum,((size_t)base+1)*4); bool r1=!neg, r2=neg, r3=bad, r4=!bad;
	intmax_t i1=convert_cstr_to_base_int(y,(uint8_t)base,yn,&r1), i2=convert_runes_to_base_int(ry,(uint8_t)base,rn,&r2); OP("convert %s base %d (%s) -> %jd,%d",t,base,num,i1,r1);
	bool fits=!bad && !toolong && (neg? v<=(uint64_t)INT64_MAX+1 : v<=INT64_MAX); int64_t e=neg? (int64_t)(0-v) : (int64_t)v;
	CHECK(r1==fits && r2==fits, "num-convert-int", "%s in base %d reported success=%d/%d, expected %d", t, base, r1, r2, fits); if( fits ) { CHECK(i1==e && i2==e, "num-convert-int", "%s in base %d gave %jd/%jd, expected %" PRId64, t, base, i1, i2, e); COUNT("converted"); } else if( !bad ) COUNT("overflow-reported"); else COUNT("bad-digit-reported");
	size_t o=neg? 1:0; char *y2=vf_exact_str(t+o,n-o); uintmax_t u1=convert_cstr_to_base_uint(y2,(uint8_t)base,yn,&r3), u2=convert_runes_to_base_uint(ry+o,(uint8_t)base,rn,&r4); bool uf=!bad && !toolong;
	CHECK(r3==uf && r4==uf, "num-convert-uint", "%s in base %d reported success=%d/%d, expected %d", t+o, base, r3, r4, uf); if( uf ) CHECK(u1==v && u2==v, "num-convert-uint", "%s in base %d gave %ju/%ju, expected %" PRIu64, t+o, base, u1, u2, v);
	if( neg ) { bool rr=true; convert_cstr_to_base_uint(y,(uint8_t)base,yn,&rr); CHECK(!rr,"num-convert-uint","unsigned conversion accepts a minus sign"); }
	vf_xfree(y); vf_xfree(yn); vf_xfree(ry); vf_xfree(rn); vf_xfree(y2); vf_leak_check("num-leak");
}
/* ---- literals with thousands of digits */
static void longlit(uint64_t idx) {
	enum kind k=(enum kind)vf_below(8); bool go=is_go(k), flt=false, got; char sep=go? '_':'\''; int base = k==CHEX||k==GHEX? 16 : k==COCT||k==GOCT? 8 : k==CBIN||k==GBIN? 2 : 10; size_t nd = idx%8==0? vf_range(65530,66000) : vf_range(200,5000), used, n=0, first; char *t=vf_xmalloc(2*nd+64);
	n=(size_t)sprintf(t,"%s", base==16? "0x" : base==2? "0b" : k==GOCT? "0o" : k==COCT? "0" : "1"); first=n; size_t at=vf_chance(1,2)? vf_below(64) : SIZE_MAX;
	for( size_t i=0; i<nd; i++ ) { t[n++]="0123456789abcdef"[vf_below((size_t)base)]; if( i%64==at && i+1<nd ) t[n++]=sep; }
	if( (base==10 || base==16) && vf_chance(1,2) ) { flt=true; t[n++]='.'; for( size_t i=0; i<100; i++ ) t[n++]=(char)('0'+vf_below(10)); n+=(size_t)sprintf(t+n, base==16? "p-%d" : "e-%d", (int)vf_below(3000)); } else if( !go ) n+=(size_t)sprintf(t+n,"%s",vf_chance(1,2)?"ull":"");
	bool gf; if( !grammar(k,t,n,&gf) || gf!=flt ) { fprintf(stderr,"VF-HARNESS long literal not in the grammar\n"); _exit(3); } vf_mix(nd); vf_mix(k); size_t tn=n; if( vf_chance(1,2) ) t[tn++]=' '; else if( vf_chance(1,2) ) t[tn++]=';'; t[tn]=0;
	for( int pass=0; pass<2; pass++ ) { enum kind kk= pass? (go? GNUM : CNUM) : k; if( pass && k==COCT && !(t[1]>='0'&&t[1]<='9') ) continue;
		enum HarbolLexErrType r=scan(kk,t,tn,&used,&got); CHECK(r==HarbolLexNoErr && used==n && got==flt,"num-long","%s of a literal with %zu digits: '%s', %zu of %zu bytes, float=%d",kname[kk],nd,lex_get_err(r),used,n,got);
		if( flt && at==SIZE_MAX ) { long double v=strtold(t,NULL), w=lex_string_to_float(&lb); CHECK(v==w,"num-float-value","literal with %zu digits converts to %Lg, expected %Lg",nd,w,v); COUNT("long-float-converted"); } }
	/* one definite mistake at the far end */
	{ size_t m=n; if( flt ) { t[m++]='.'; t[m++]='1'; } else { t[first+vf_below(3)]='0'; m=n; while( m && !in(t[m-1],base) ) m--; t[m++]=sep; } t[m]=0; enum HarbolLexErrType r=scan(k,t,m,&used,&got); CHECK(r!=HarbolLexNoErr,"num-malformed-accepted","%s accepts a malformed literal of %zu bytes",kname[k],m); }
	COUNT("long-literal"); if( nd>65535 ) COUNT("beyond-16-bit-literal"); vf_xfree(t); done();
}
struct vf_mode const vf_modes[] = { {"valid", valid}, {"malformed", malformed}, {"arbitrary", arbitrary}, {"convert", convert}, {"longlit", longlit}, {0} };
struct vf_probe const vf_probes[] = { {0} };
