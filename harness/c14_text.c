/* C14: text scanners (comments, quoted strings, escapes, identifiers, skippers) against reference readings; nothing outside the text is touched. */
#include "vf.h"
#include <unistd.h>
#include "lex/lex.h"
static char T[600]; static size_t n;
static void put(char c) { if( n<560 ) T[n++]=c; }
static void puts_(char const *s) { while( *s ) put(*s++); }
static struct HarbolString b;
static void fresh(void) { harbol_string_clear(&b); }
#define INSIDE(p, y, nm) CHECK((p)>=(y) && (p)<=(y)+n, "text-end-outside", nm "(%s) ended %zd bytes from the start of %zu", vf_quote(T,n), (ssize_t)((p)-(y)), n)
#define SAME(y, nm) CHECK(!memcmp(y,T,n+1), "text-source", nm " changed its input")
#define LEXEME(exp, el, nm) CHECK(b.len==(el) && (b.len==0 || (strlen(b.cstr)==b.len && !memcmp(b.cstr,(exp),b.len))), "text-lexeme", nm "(%s) collected %s, expected %s", vf_quote(T,n), vf_quote(b.cstr,b.len), vf_quote((exp),(el)))
#define AT(p, y, e, nm) CHECK((size_t)((p)-(y))==(e), "text-end", nm "(%s) ended at %zd, expected %zu", vf_quote(T,n), (ssize_t)((p)-(y)), (size_t)(e))
static char rc(void) { static char const a[]="ab \t/*#\"'`\\\n\n*/x0-"; return vf_chance(1,12)? (char)(0x80+vf_below(128)) : a[vf_below(sizeof a-1)]; }
/* ------------------------------------------------ comments */
static void comments(uint64_t idx) {
	(void)idx; char const *ends[]={"*/","*/","-->","\"\"\"","}","%>","end"}; char const *et=ends[vf_below(7)]; size_t el=strlen(et); n=0; fresh();
	if( vf_chance(1,2) ) {
		/* single line: a backslash directly before the newline joins the next line */
		puts_(vf_chance(1,2)? "//" : "#"); size_t lines=vf_range(0,3), w; uint32_t joins=0; bool open=vf_chance(1,4);
		for( size_t l=0; l<=lines; l++ ) { w=vf_below(12); for( size_t i=0; i<w; i++ ) { char c=rc(); if( c=='\\' || c=='\n' ) c='y'; put(c); } if( l<lines ) { put('\\'); put('\n'); joins++; } }
		size_t end=n; bool dangling = open && vf_chance(1,3); if( dangling ) { put('\\'); end=n; } if( !open ) { put('\n'); w=vf_below(8); for( size_t i=0; i<w; i++ ) put(rc()); } T[n]=0; vf_mix_bytes(T,n);
		char *y=vf_exact_str(T,n); uint32_t l0=(uint32_t)vf_below(9), l1=l0; char const *e=skip_single_line_comment(y,&l1); OP("skip_single_line_comment(%s) -> %zd, %u lines",vf_quote(T,n),(ssize_t)(e-y),l1-l0); INSIDE(e,y,"skip_single_line_comment"); AT(e,y,end,"skip_single_line_comment"); CHECK(l1-l0==joins,"text-lines","skip_single_line_comment(%s) counted %u lines, expected %u",vf_quote(T,n),l1-l0,joins); SAME(y,"skip_single_line_comment");
		l1=l0; bool r=lex_single_line_comment(y,&e,&b,&l1); OP("lex_single_line_comment -> %d",r); INSIDE(e,y,"lex_single_line_comment"); AT(e,y,end,"lex_single_line_comment"); CHECK(r && l1-l0==joins,"text-lines","lex_single_line_comment(%s) counted %u lines, expected %u",vf_quote(T,n),l1-l0,joins); SAME(y,"lex_single_line_comment"); LEXEME(T,end,"lex_single_line_comment");
		char *c=clear_single_line_comment(y); INSIDE(c,y,"clear_single_line_comment"); AT(c,y,end,"clear_single_line_comment"); for( size_t i=0; i<=n; i++ ) { char x = i<end && T[i]!='\n'? ' ' : T[i]; CHECK(y[i]==x,"text-cleared","clear_single_line_comment(%s) left %s",vf_quote(T,n),vf_quote(y,n)); }
		vf_xfree(y); COUNT("line-comment"); if( joins ) COUNT("continued-comment"); if( open ) COUNT("line-comment-at-end"); if( dangling ) COUNT("dangling-backslash");
	} else {
		char const *st = et[0]=='*'? "/*" : et[0]=='-'? "<!--" : et[0]=='}'? "{" : et[0]=='%'? "<%" : et[0]=='e'? "begin" : "\"\"\""; bool term=vf_chance(3,4); put('S'); puts_(st+ (vf_chance(1,2)&&*st)); size_t w=vf_below(30), from=1; for( size_t i=0; i<w; i++ ) put(vf_chance(1,5)? et[vf_below(el)] : rc()); if( term ) puts_(et); w=term? vf_below(10) : 0; for( size_t i=0; i<w; i++ ) put(rc()); if( vf_chance(1,40) ) n=0; T[n]=0; vf_mix_bytes(T,n);
		size_t p=n; uint32_t nl=0; if( n>from ) for( p=from; p<n && strncmp(T+p,et,el); p++ ) if( T[p]=='\n' ) nl++; bool found=p<n; size_t end=found? p+el : n;
		char *y=vf_exact_str(T,n), *ye=vf_exact_str(et,el); uint32_t l0=3,l1=l0; char const *e=skip_multi_line_comment(y,ye,el,&l1); OP("skip_multi_line_comment(%s,%s) -> %zd, %u lines",vf_quote(T,n),et,(ssize_t)(e-y),l1-l0); INSIDE(e,y,"skip_multi_line_comment"); AT(e,y,end,"skip_multi_line_comment"); CHECK(l1-l0==nl,"text-lines","skip_multi_line_comment(%s) counted %u lines, expected %u",vf_quote(T,n),l1-l0,nl); SAME(y,"skip_multi_line_comment");
		l1=l0; bool r=lex_multi_line_comment(y,&e,ye,el,&b,&l1); INSIDE(e,y,"lex_multi_line_comment"); AT(e,y,end,"lex_multi_line_comment"); CHECK(l1-l0==nl,"text-lines","lex_multi_line_comment(%s) counted %u lines, expected %u",vf_quote(T,n),l1-l0,nl); SAME(y,"lex_multi_line_comment"); if( found ) { CHECK(r,"text-verdict","comment refused"); LEXEME(T,end,"lex_multi_line_comment"); COUNT("block-comment"); } else COUNT("block-comment-unterminated");
		char *c=clear_multi_line_comment(y,ye,el); INSIDE(c,y,"clear_multi_line_comment"); AT(c,y,end,"clear_multi_line_comment"); for( size_t i=0; i<=n; i++ ) { char x = i<end && T[i]!='\n'? ' ' : T[i]; CHECK(y[i]==x,"text-cleared","clear_multi_line_comment(%s) left %s",vf_quote(T,n),vf_quote(y,n)); }
		if( nl ) COUNT("multi-line"); vf_xfree(y); vf_xfree(ye);
	}
	fresh(); vf_leak_check("text-leak");
}
/* ------------------------------------------------ string literals */
static char D[2000]; static size_t dn; static int bad;
static void utf8(uint32_t r) { if( r<0x80 ) D[dn++]=(char)r; else if( r<0x800 ) { D[dn++]=(char)(0xC0|r>>6); D[dn++]=(char)(0x80|(r&63)); } else if( r<0x10000 ) { D[dn++]=(char)(0xE0|r>>12); D[dn++]=(char)(0x80|(r>>6&63)); D[dn++]=(char)(0x80|(r&63)); } else { D[dn++]=(char)(0xF0|r>>18); D[dn++]=(char)(0x80|(r>>12&63)); D[dn++]=(char)(0x80|(r>>6&63)); D[dn++]=(char)(0x80|(r&63)); } }
static void strings(uint64_t idx) {
	(void)idx; n=0; dn=0; bad=0; fresh(); bool go=vf_chance(1,3); char q = go? "\"`'"[vf_below(3)] : "\"'"[vf_below(2)]; bool raw=go && q=='`'; bool term=vf_chance(4,5); put(q); char hexlast=0; size_t toks=vf_chance(1,8)? 0 : vf_range(1,14); static char const hx[]="0123456789abcdefABCDEF";
	for( size_t t=0; t<toks && !bad; t++ ) {
		unsigned k=(unsigned)vf_below(14); char c; hexlast=0; uint32_t v=0; size_t m; char x[16];
		if( raw && vf_chance(1,5) ) { c=rc(); if( c==q ) c='\\'; put('\\'); put(c); D[dn++]='\\'; D[dn++]=c; COUNT("raw-backslash"); continue; }
		if( raw && k>=4 ) { c=rc(); if( c==q || c=='\\' ) c='r'; put(c); D[dn++]=c; continue; }
		switch( k ) {
		case 0: case 1: case 2: do c=(char)(32+vf_below(95)); while( c==q || c=='\\' ); put(c); D[dn++]=c; break;
		case 3: c=vf_chance(1,3)? '\n' : (char)(0x80+vf_below(128)); if( vf_chance(1,3) ) { c=vf_chance(1,4)? 127 : vf_chance(1,3)? '\r' : (char)(1+vf_below(31)); COUNT("control-character"); } put(c); D[dn++]=c; break;
		case 4: case 5: { static char const e[]="arbtvnNfe", r[]="\a\r\b\t\v\n\n\f\x1B"; size_t i=vf_below(9); put('\\'); put(e[i]); D[dn++]=r[i]; COUNT("simple-escape"); } break;
		case 6: case 7: c="\\\"'?z/ "[vf_below(7)]; put('\\'); put(c); D[dn++]=c; if( c=='"' || c=='\'' ) COUNT("escaped-quote"); break;
		case 8: case 9: { m=vf_range(1,6); for( size_t i=0; i<m; i++ ) { x[i]=hx[vf_below(22)]; } x[m]=0; v=(uint32_t)strtoul(x,NULL,16); if( v==0 ) { x[0]='4'; v=(uint32_t)strtoul(x,NULL,16); } put('\\'); put("xX"[vf_below(2)]); if( vf_chance(1,4) ) { for( size_t z=vf_range(1,14); z--; ) put('0'); COUNT("padded-escape"); } puts_(x); if( v>0x10FFFF ) bad=HarbolLexBadHexChar; else { utf8(v); COUNT("hex-escape"); } hexlast=1; } break;
		case 10: { m=vf_range(1,3); for( size_t i=0; i<m; i++ ) x[i]=(char)('0'+vf_below(8)); x[m]=0; v=(uint32_t)strtoul(x,NULL,8); if( v==0 ) { x[0]='1'; v=(uint32_t)strtoul(x,NULL,8); } put('\\'); puts_(x); utf8(v); COUNT("octal-escape"); hexlast = m<3? 2:0; if( m==3 ) COUNT("octal-3-digits"); } break;
		case 11: { bool big=vf_chance(1,2); do v=(uint32_t)(big? vf_below(0x110000) : vf_below(0x10000)); while( v<0xA0 || (v>=0xD800 && v<=0xDFFF) ); if( vf_chance(1,6) ) { v = vf_chance(1,2)? 0xD800+(uint32_t)vf_below(0x800) : big? 0x110000+(uint32_t)vf_below(0x10000) : 0x41; bad=HarbolLexBadUnicodeChar; } sprintf(x, big? "\\U%08X" : "\\u%04x", v); puts_(x); if( !bad ) { utf8(v); COUNT("unicode-escape"); } } break;
		case 12: if( vf_chance(1,6) ) { put('\\'); c="xX89uU"[vf_below(6)]; put(c); put('g'); bad = c=='8'||c=='9'? HarbolLexBadOctalChar : c=='u'||c=='U'? HarbolLexBadUnicodeChar : HarbolLexBadHexChar; COUNT("bad-escape"); } break;
		case 13: utf8(0xA0+(uint32_t)vf_below(0x5000)); while( 0 ) {} { size_t l=dn; size_t s=l; while( (D[s-1]&0xC0)==0x80 ) s--; s--; for( size_t i=s; i<l; i++ ) put(D[i]); } break;
		}
		if( hexlast && !bad ) { /* separate so that the next character cannot extend the escape */ put('.'); D[dn++]='.'; }
	}
	size_t body=n; bool trail=false; if( term ) { put(q); size_t w=vf_below(8); for( size_t i=0; i<w; i++ ) put(rc()); } else if( !raw && vf_chance(1,4) ) { put('\\'); trail=true; } if( vf_chance(1,60) ) { n=0; } T[n]=0; vf_mix_bytes(T,n); vf_mix(go);
	char *y=vf_exact_str(T,n); char const *e=(char const*)1; enum HarbolLexErrType r = go? lex_go_style_str(y,&e,&b) : lex_c_style_str(y,&e,&b); OP("lex_%s_style_str(%s) -> %d", go?"go":"c", vf_quote(T,n), r); CHECK(e!=(char const*)1,"text-end","end not set"); INSIDE(e,y,"string scanner"); SAME(y,"string scanner");
	if( n==0 ) { CHECK(r!=HarbolLexNoErr,"text-verdict","empty text accepted"); COUNT("empty"); }
	else if( bad ) { CHECK(r==(enum HarbolLexErrType)bad,"text-verdict","string %s gave '%s', expected '%s'",vf_quote(T,n),lex_get_err(r),lex_get_err((enum HarbolLexErrType)bad)); COUNT("bad-escape-rejected"); }
	else if( !term ) { CHECK(r==HarbolLexSuddenEoFStr,"text-verdict","unterminated string %s gave '%s'",vf_quote(T,n),lex_get_err(r)); AT(e,y,n,"unterminated string scan"); COUNT("unterminated"); if( trail ) COUNT("trailing-backslash"); }
	else { CHECK(r==HarbolLexNoErr,"text-verdict","string %s gave '%s'",vf_quote(T,n),lex_get_err(r)); AT(e,y,body+1,"string scan"); LEXEME(D,dn,"string scanner"); COUNT("string-decoded"); if( raw ) COUNT("raw-string"); }
	/* skipper over the same text: ends on the closing quote */
	{ size_t p=n; if( n ) for( p=1; p<n && T[p]!=T[0]; p++ ) if( T[p]=='\\' && p+1<n ) p++; char const *z=skip_string_literal(y,'\\'); INSIDE(z,y,"skip_string_literal"); AT(z,y,p,"skip_string_literal"); SAME(y,"skip_string_literal"); }
	vf_xfree(y); fresh(); vf_leak_check("text-leak");
}
/* ------------------------------------------------ multi-character quotes */
static void multiquote(uint64_t idx) {
	(void)idx; char const *qs[]={"\"\"\"","'''","<<","$$","]]","\""}; char const *q=qs[vf_below(6)]; size_t ql=strlen(q); n=0; fresh(); bool open=vf_chance(4,5), term=vf_chance(4,5); if( open ) puts_(q); size_t st=n, w=vf_below(25); for( size_t i=0; i<w; i++ ) put(vf_chance(1,6)? q[0] : rc()); if( term ) puts_(q); w=term? vf_below(8):0; for( size_t i=0; i<w; i++ ) put(rc()); T[n]=0; vf_mix_bytes(T,n); vf_mix(ql);
	if( !open && !strncmp(T,q,ql) ) st=ql;
	size_t p=st; size_t nl=0; for( ; p<n && strncmp(T+p,q,ql); p++ ) nl += T[p]=='\n'; bool found=p<n;
	char *y=vf_exact_str(T,n), *yq=vf_exact_str(q,ql); char const *e; size_t line=7; bool r=lex_multiquote_string(y,&e,yq,ql,&b,&line); OP("lex_multiquote_string(%s,%s) -> %d",vf_quote(T,n),q,r); INSIDE(e,y,"lex_multiquote_string"); SAME(y,"lex_multiquote_string"); CHECK(r==found,"text-verdict","multi-quote %s gave %d, expected %d",vf_quote(T,n),r,found); AT(e,y,found? p+ql : n,"lex_multiquote_string"); LEXEME(T+st,p-st,"lex_multiquote_string"); CHECK(line-7==nl,"text-lines","lex_multiquote_string(%s) counted %zu lines, expected %zu",vf_quote(T,n),line-7,nl); if( found ) COUNT("multiquote"); else COUNT("multiquote-unterminated"); if( nl ) COUNT("multi-line");
	char esc = vf_chance(1,3)? 0 : '\\'; for( p=0; p<n && strncmp(T+p,q,ql); p++ ) if( T[p]==esc && p+1<n ) p++; if( p>n ) p=n; size_t end=p<n? p+ql : n; char const *z=skip_multiquote_string(y,yq,ql,esc); INSIDE(z,y,"skip_multiquote_string"); AT(z,y,end,"skip_multiquote_string"); vf_xfree(y); vf_xfree(yq); fresh(); vf_leak_check("text-leak");
}
/* ------------------------------------------------ words, skippers, newline fixing, predicates */
static int ck; static bool chk(int32_t c) { switch( ck ) { case 0: return is_whitespace(c); case 1: return is_possible_id(c); case 2: return is_decimal(c); case 3: return is_alphabetic(c); case 4: return c!=','; case 5: return is_hex(c); case 6: return is_octal(c)||c>0x7F; default: return is_binary(c); } }
static void words(uint64_t idx) {
	(void)idx; static char const al[]="ab_Z019 78fF,.\n\t \r\v+"; n=0; fresh(); size_t w=vf_below(30); for( size_t i=0; i<w; i++ ) { if( vf_chance(1,8) ) { char u[3]; uint32_t r=0xA1+(uint32_t)vf_below(0x600); u[0]=(char)(0xC0|r>>6); u[1]=(char)(0x80|(r&63)); put(u[0]); put(u[1]); } else if( vf_chance(1,3) && n ) put(T[n-1]>0? T[n-1] : 'a'); else put(al[vf_below(sizeof al-1)]); } T[n]=0; vf_mix_bytes(T,n); ck=(int)vf_below(8); vf_mix((uint64_t)ck);
	char *y=vf_exact_str(T,n); size_t p; uint32_t nl=0, l1=5; for( p=0; p<n && chk(T[p]); p++ ) nl+=T[p]=='\n'; char const *e=skip_chars(y,chk,&l1); OP("skip_chars(%s,%d) -> %zd",vf_quote(T,n),ck,(ssize_t)(e-y)); INSIDE(e,y,"skip_chars"); AT(e,y,p,"skip_chars"); CHECK(l1-5==nl,"text-lines","skip_chars counted %u lines, expected %u",l1-5,nl);
	bool r=lex_until_false(y,&e,&b,chk); AT(e,y,p,"lex_until_false"); LEXEME(T,p,"lex_until_false"); CHECK(r==(p>0),"text-verdict","lex_until_false gave %d",r); fresh(); if( p ) COUNT("word"); if( nl ) COUNT("skipped-newlines");
	size_t p2=0; while( p2<p && T[p2]!='\n' ) p2++; e=skip_chars_until_newline(y,chk); AT(e,y,p2,"skip_chars_until_newline");
	{ size_t u=0; while( u<n ) { int32_t rune=T[u]; size_t l=1; if( T[u]<0 ) { rune=(T[u]&31)<<6|(T[u+1]&63); l=2; } if( !chk(rune) ) break; u+=l; } r=lex_until_false_utf8(y,&e,&b,chk); AT(e,y,u,"lex_until_false_utf8"); LEXEME(T,u,"lex_until_false_utf8"); CHECK(r==(u>0),"text-verdict","lex_until_false_utf8 gave %d",r); fresh(); if( u>1 && memchr(T,(char)0xC3,u) ) COUNT("utf8-word"); }
	{ char c=n && vf_chance(2,3)? T[vf_below(n)] : (char)(33+vf_below(90)); for( p=0; p<n && T[p]!=c; p++ ); r=lex_until(y,&e,&b,c); AT(e,y,p,"lex_until"); LEXEME(T,p,"lex_until"); CHECK(r==(p>0),"text-verdict","lex_until gave %d",r); fresh(); }
	{ bool id = is_alphabetic(T[0]) && n; char const *e2=y; r=lex_c_style_identifier(y,&e2,&b); for( p=0; id && p<n && ((T[p]>='a'&&T[p]<='z')||(T[p]>='A'&&T[p]<='Z')||(T[p]>='0'&&T[p]<='9')||T[p]=='_'||T[p]<-1); p++ ); CHECK(r==id,"text-verdict","lex_c_style_identifier(%s) gave %d",vf_quote(T,n),r); if( r ) { AT(e2,y,p,"lex_c_style_identifier"); LEXEME(T,p,"lex_c_style_identifier"); COUNT("identifier"); } fresh(); }
	SAME(y,"word scanner"); vf_xfree(y);
	{ bool res=false; char F[1300]; size_t fl=0; bool tabs=vf_chance(1,2); struct HarbolString s=harbol_string_make(T,&res); for( size_t i=0; i<n; i++ ) { if( T[i]=='\r' ) { F[fl++]='\n'; if( T[i+1]=='\n' ) i++; COUNT("carriage-return"); } else if( T[i]=='\t' && tabs ) { memcpy(F+fl,"    ",4); fl+=4; } else F[fl++]=T[i]; } lex_fix_newlines(&s,tabs); CHECK(s.len==fl && (!fl || !memcmp(s.cstr,F,fl)),"text-newlines","lex_fix_newlines(%s) gave %s",vf_quote(T,n),vf_quote(s.cstr,s.len)); harbol_string_clear(&s); }
	for( int i=0; i<3; i++ ) { int32_t c=(int32_t)vf_below(300); bool al_=(c>='a'&&c<='z')||(c>='A'&&c<='Z')||c=='_'; CHECK(is_alphabetic(c)==al_ && is_decimal(c)==(c>='0'&&c<='9') && is_possible_id(c)==(al_||(c>='0'&&c<='9')) && is_octal(c)==(c>='0'&&c<='7') && is_binary(c)==(c=='0'||c=='1') && is_hex(c)==((c>='0'&&c<='9')||(c>='a'&&c<='f')||(c>='A'&&c<='F')) && is_whitespace(c)==(c==' '||(c>=9&&c<=13)),"text-class","character class of %d",c);
		uint32_t u=(uint32_t)vf_below(0x120000); bool vu=!(u>=0xD800&&u<=0xDFFF) && u<=0x10FFFF && (u>=0xA0||u=='$'||u=='@'||u=='`'); CHECK(is_valid_unicode((int32_t)u)==vu,"text-class","validity of U+%X",u);
		size_t ix=vf_below(n+3); char cc=ix<n? T[ix] : 'a'; CHECK(check_is_char(T,n,ix,cc)==(ix<n) && !check_is_char(T,n,ix,0) && !check_is_char(T,n,ix,cc=='a'?'b':'a'),"text-class","check_is_char"); }
	if( n==0 ) vf_trivial(); vf_leak_check("text-leak");
}
/* ------------------------------------------------ arbitrary bytes through everything: bounds and termination only */
static void arbitrary(uint64_t idx) {
	(void)idx; n=0; fresh(); size_t w=vf_below(30); for( size_t i=0; i<w; i++ ) put(vf_chance(1,6)? (char)(1+vf_below(255)) : vf_chance(1,3)? "\\xuU01nfF7"[vf_below(10)] : rc()); T[n]=0; vf_mix_bytes(T,n); char *y=vf_exact_str(T,n); char const *e; uint32_t l=0; size_t sl=0; OP("all(%s)",vf_quote(T,n));
	INSIDE(skip_string_literal(y,'\\'),y,"skip_string_literal"); INSIDE(skip_single_line_comment(y,&l),y,"skip_single_line_comment"); INSIDE(skip_multi_line_comment(y,"*/",2,&l),y,"skip_multi_line_comment"); INSIDE(skip_multiquote_string(y,"'''",3,'\\'),y,"skip_multiquote_string");
	lex_single_line_comment(y,&e,&b,&l); INSIDE(e,y,"lex_single_line_comment"); fresh(); lex_multi_line_comment(y,&e,"*/",2,&b,&l); INSIDE(e,y,"lex_multi_line_comment"); fresh(); lex_multiquote_string(y,&e,"'''",3,&b,&sl); INSIDE(e,y,"lex_multiquote_string"); fresh(); lex_c_style_str(y,&e,&b); INSIDE(e,y,"lex_c_style_str"); fresh(); lex_go_style_str(y,&e,&b); INSIDE(e,y,"lex_go_style_str"); fresh();
	lex_hex_escape_char(y,&e); INSIDE(e,y,"lex_hex_escape_char"); lex_octal_escape_char(y,&e); INSIDE(e,y,"lex_octal_escape_char"); lex_unicode_char(y,&e,vf_chance(1,2)?2:4); INSIDE(e,y,"lex_unicode_char"); ck=(int)vf_below(8); lex_until_false_utf8(y,&e,&b,chk); INSIDE(e,y,"lex_until_false_utf8"); fresh(); struct LexingRules lr={0}; lex_custom_number(y,&e,&lr,&b); INSIDE(e,y,"lex_custom_number"); fresh();
	SAME(y,"a scanner"); char *c=clear_single_line_comment(y); INSIDE(c,y,"clear_single_line_comment"); memcpy(y,T,n+1); c=clear_multi_line_comment(y,"*/",2); INSIDE(c,y,"clear_multi_line_comment"); CHECK(y[n]==0,"text-cleared","terminator overwritten"); vf_xfree(y); vf_leak_check("text-leak"); COUNT("arbitrary"); if( n==0 ) vf_trivial();
}
/* ------------------------------------------------ long texts */
static void longtext(uint64_t idx) {
	size_t m = idx%4==0? vf_range(65600,70000) : vf_range(1000,20000); unsigned kind=(unsigned)vf_below(8); char *t=vf_xmalloc(m*2+64); size_t w=0, nl=0; uint32_t l0=(uint32_t)vf_below(70000), l1=l0; char const *e; bool dense=vf_chance(1,3); size_t gap=dense? 3 : vf_chance(1,2)? 3 : vf_chance(1,2)? 9000 : 500; vf_mix(m); vf_mix(kind); fresh();
	#define FAR(pos) CHECK((size_t)(e-y)==(pos),"text-end","construct of %zu bytes in %zu: ended at %zd",(size_t)(pos),w,(ssize_t)(e-y))
	#define LINES(x) CHECK((x)==nl,"text-lines","%zu lines counted in %zu bytes, expected %zu",(size_t)(x),w,nl)
	#define BODY(o,ln) CHECK(b.len==(size_t)(ln) && !memcmp(b.cstr,t+(o),b.len),"text-lexeme","%zu bytes collected of %zu, or others",b.len,(size_t)(ln))
	switch( kind ) {
	case 0: { for( ; w<m; w++ ) { t[w]= dense||vf_chance(1,gap)? '\n' : " \t\r"[vf_below(3)]; nl+=t[w]=='\n'; } size_t end=w; t[w++]='x'; t[w]=0; char *y=vf_exact_str(t,w); e=skip_chars(y,is_whitespace,&l1); FAR(end); LINES(l1-l0); size_t q=0; while( t[q]!='\n' && q<end ) q++; e=skip_chars_until_newline(y,is_whitespace); FAR(q); vf_xfree(y); } break;
	case 1: { t[w++]='/'; t[w++]='*'; for( ; w<m; w++ ) { t[w]= dense||vf_chance(1,gap)? '\n' : "a* "[vf_below(3)]; nl+=t[w]=='\n'; } t[w++]='*'; t[w++]='/'; size_t end=w; t[w++]='/'; t[w]=0; char *y=vf_exact_str(t,w); e=skip_multi_line_comment(y,"*/",2,&l1); FAR(end); LINES(l1-l0); l1=l0; CHECK(lex_multi_line_comment(y,&e,"*/",2,&b,&l1),"text-verdict","long comment refused"); FAR(end); LINES(l1-l0); BODY(0,end); e=clear_multi_line_comment(y,"*/",2); FAR(end); for( size_t i=0; i<w; i++ ) CHECK(y[i]==(i<end && t[i]!='\n'? ' ':t[i]),"text-cleared","byte %zu of a long comment",i); vf_xfree(y); } break;
	case 2: { t[w++]='#'; while( w<m ) { if( dense||vf_chance(1,gap) ) { t[w++]='\\'; t[w++]='\n'; nl++; } else t[w++]='c'; } size_t end=w; t[w++]='\n'; t[w++]='z'; t[w]=0; char *y=vf_exact_str(t,w); e=skip_single_line_comment(y,&l1); FAR(end); LINES(l1-l0); l1=l0; CHECK(lex_single_line_comment(y,&e,&b,&l1),"text-verdict","long comment refused"); FAR(end); LINES(l1-l0); BODY(0,end); e=clear_single_line_comment(y); FAR(end); for( size_t i=0; i<w; i++ ) CHECK(y[i]==(i<end && t[i]!='\n'? ' ':t[i]),"text-cleared","byte %zu of a long comment",i); vf_xfree(y); } break;
	case 3: { memcpy(t,"\"\"\"",3); w=3; for( ; w<m; w++ ) { t[w]= dense||vf_chance(1,gap)? '\n' : "ab\""[vf_below(w%3? 2:3)]; if( t[w]=='"' && t[w-1]=='"' ) t[w]='q'; nl+=t[w]=='\n'; } if( t[w-1]=='"' ) t[w-1]='q'; size_t body=w; memcpy(t+w,"\"\"\"",3); w+=3; size_t end=w; t[w++]='z'; t[w]=0; char *y=vf_exact_str(t,w); size_t line=l0; CHECK(lex_multiquote_string(y,&e,"\"\"\"",3,&b,&line),"text-verdict","long multi-quote refused"); FAR(end); LINES(line-l0); BODY(3,body-3); e=skip_multiquote_string(y+3,"\"\"\"",3,'\\'); FAR(end); vf_xfree(y); } break;
	case 4: { char *d=vf_xmalloc(m*2+64); size_t dl=0; t[w++]='"'; while( w<m ) { if( dense||vf_chance(1,3) ) { t[w++]='\\'; t[w++]='n'; d[dl++]='\n'; } else if( vf_chance(1,9) ) { memcpy(t+w,"\\u00e9",6); w+=6; d[dl++]=(char)0xC3; d[dl++]=(char)0xA9; } else d[dl++]=t[w++]=(char)('a'+vf_below(26)); } t[w++]='"'; size_t end=w; t[w++]='z'; t[w]=0; char *y=vf_exact_str(t,w); enum HarbolLexErrType r=lex_c_style_str(y,&e,&b); CHECK(r==HarbolLexNoErr,"text-verdict","long string gave '%s'",lex_get_err(r)); FAR(end); CHECK(b.len==dl && !memcmp(b.cstr,d,dl),"text-lexeme","%zu characters denoted, expected %zu, or others",b.len,dl); e=skip_string_literal(y,'\\'); FAR(end-1); vf_xfree(y); vf_xfree(d); } break;
	case 5: { for( ; w<m; w++ ) t[w]="abcXYZ_09"[vf_below(w? 9:7)]; size_t end=w; t[w++]='-'; t[w]=0; char *y=vf_exact_str(t,w); CHECK(lex_c_style_identifier(y,&e,&b),"text-verdict","long identifier refused"); FAR(end); BODY(0,end); fresh(); CHECK(lex_until(y,&e,&b,'-'),"text-verdict","refused"); FAR(end); BODY(0,end); fresh(); ck=1; CHECK(lex_until_false(y,&e,&b,chk),"text-verdict","refused"); FAR(end); BODY(0,end); fresh(); CHECK(lex_until_false_utf8(y,&e,&b,chk),"text-verdict","refused"); FAR(end); BODY(0,end); vf_xfree(y); } break;
	case 6: { /* a closing token of hundreds of characters, and near misses of it */ size_t k=vf_range(200,700); char *q=vf_xmalloc(k+1); for( size_t i=0; i<k; i++ ) q[i]="=-"[vf_below(2)]; q[0]='<'; q[k]=0; bool quote=vf_chance(1,2); if( quote ) { memcpy(t,q,k); w=k; } for( size_t c=vf_range(1,4); c--; ) { memcpy(t+w,q,k); t[w+k-1-(vf_chance(1,2)? 0 : vf_below(k/2))]^=0x10; w+=k; t[w++]='a'; if( vf_chance(1,2) ) { t[w++]='\n'; nl++; } if( w+2*k+8>m*2 ) break; } size_t body=w; memcpy(t+w,q,k); w+=k; size_t end=w; t[w++]='z'; t[w]=0; char *y=vf_exact_str(t,w); char *z=vf_exact_str(q,k);
		if( quote ) { size_t line=l0; CHECK(lex_multiquote_string(y,&e,z,k,&b,&line),"text-verdict","quote of %zu characters refused",k); FAR(end); LINES(line-l0); BODY(k,body-k); e=skip_multiquote_string(y+k,z,k,'\\'); FAR(end); }
		else { e=skip_multi_line_comment(y,z,k,&l1); FAR(end); LINES(l1-l0); l1=l0; CHECK(lex_multi_line_comment(y,&e,z,k,&b,&l1),"text-verdict","comment closed by %zu characters refused",k); FAR(end); LINES(l1-l0); BODY(0,end); e=clear_multi_line_comment(y,z,k); FAR(end); for( size_t i=0; i<w; i++ ) CHECK(y[i]==(i<end && t[i]!='\n'? ' ':t[i]),"text-cleared","byte %zu of a comment",i); } vf_xfree(y); vf_xfree(z); vf_xfree(q); COUNT("long-token"); } break;
	default: { char *d=vf_xmalloc(m*2+64); size_t dl=0, cr=m>20000? 400 : 60; for( ; w<m; w++ ) { if( vf_chance(1,m/cr) ) { t[w]='\r'; d[dl++]='\n'; if( vf_chance(1,2) ) t[++w]='\n'; } else if( (d[dl++]=t[w]="ab \n"[vf_below(4)])=='\n' && w && t[w-1]=='\r' ) t[w]=d[dl-1]='x'; } t[w]=0; struct HarbolString s=harbol_string_make(t,&(bool){0}); lex_fix_newlines(&s,false); CHECK(s.len==dl && !memcmp(s.cstr,d,dl),"text-newlines","lex_fix_newlines of %zu bytes gave %zu, expected %zu, or others",w,s.len,dl); harbol_string_clear(&s); vf_xfree(d); } }
	COUNT("long-text"); if( nl>65535 ) COUNT("beyond-16-bit-lines"); vf_xfree(t); fresh(); vf_leak_check("text-leak");
}
/* ------------------------------------------------ the character classes of every value */
static void classes(uint64_t idx) {
	int32_t lo = idx<1100? (int32_t)(idx*1024)-4096 : (int32_t)vf_rand(), bound=lo; vf_mix(idx<1100? idx : (uint64_t)(uint32_t)lo);
	for( int k=0; k<1024; k++ ) { int32_t c=(int32_t)((uint32_t)bound+(uint32_t)k); bool al_=(c>='a'&&c<='z')||(c>='A'&&c<='Z')||c=='_'||c<-1, d=c>='0'&&c<='9'; CHECK(is_alphabetic(c)==al_ && is_decimal(c)==d && is_possible_id(c)==(al_||d) && is_octal(c)==(c>='0'&&c<='7') && is_binary(c)==(c=='0'||c=='1') && is_hex(c)==(d||(c>='a'&&c<='f')||(c>='A'&&c<='F')) && is_whitespace(c)==(c==' '||(c>=9&&c<=13)),"text-class","character class of %d",c);
		uint32_t u=(uint32_t)c; bool vu=!(u>=0xD800&&u<=0xDFFF) && u<=0x10FFFF && (u>=0xA0||u=='$'||u=='@'||u=='`'); CHECK(is_valid_unicode(c)==vu,"text-class","validity of U+%X",u); char t[12]; char const *e; snprintf(t,sizeof t,"%08X%c",u,vf_chance(1,2)? 'F' : 0); CHECK(lex_unicode_char(t,&e,4)==(vu? c : -1) && e==t+8,"text-class","escape of U+%X",u); if( u<=0xFFFF ) { snprintf(t,sizeof t,"%04x%s",u,vf_chance(1,2)? "0" : ""); CHECK(lex_unicode_char(t,&e,2)==(vu? c : -1) && e==t+4,"text-class","short escape of U+%X",u); }
		int32_t rs[4]={c? c : 1,'b',c? c : 1,0}; CHECK(check_is_rune(rs,3,2,rs[0]) && !check_is_rune(rs,2,2,rs[0]) && check_is_rune(rs,3,1,'b') && !check_is_rune(rs,4,3,0) && !check_is_rune(rs,3,0,rs[0]+(rs[0]<INT32_MAX? 1 : -1)),"text-class","check_is_rune of %d",c); CHECK(find_rune_in_runes(rs,rs[0])==0 && has_rune_in_runes(rs,'b') && (c=='a' || !has_rune_in_runes(rs,'a')),"text-class","find_rune_in_runes of %d",c); }
	COUNT("class-block");
}
struct vf_mode const vf_modes[] = { {"classes", classes}, {"comments", comments}, {"strings", strings}, {"multiquote", multiquote}, {"words", words}, {"arbitrary", arbitrary}, {"longtext", longtext}, {0} };
struct vf_probe const vf_probes[] = { {0} };
