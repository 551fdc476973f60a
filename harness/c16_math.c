/* C16: expression evaluation against a generator that knows the value of what it writes; callback protocol; malformed text is harmless. */
#include <unistd.h>
#include "vf.h"
#include <math.h>
#include "math/math_parser.h"
typedef long double ld;
static char X[20000]; static size_t xn; static unsigned budget;
static void put(char c) { if( xn<sizeof X-2 ) X[xn++]=c; }
static void ws(void) { while( vf_chance(1,6) ) put(" \t\n\r"[vf_below(4)]); }
static void w(char const *s) { ws(); while( *s ) put(*s++); ws(); }
/* names known to the callback */
#define NV 6
static struct { char name[80]; ld v; int fn; } V[NV]; static int MARK; 
static struct { char name[80]; } E[2000]; static size_t en, got; static char const *bad;
static ld f_twice(ld x) { return x*2+1; } static ld f_neg(ld x) { return -x; }
static ld (*const FN[])(ld) = {0, f_twice, f_neg};
static bool NEST; static bool same(ld a, ld b); static void zcb(char const *name, size_t len, floatmax_t *value, HarbolMathFunc **fn, void *data, size_t dl, bool *is_func) { (void)name; (void)len; (void)fn; (void)data; (void)dl; (void)is_func; *value=9; }
static void cb(char const *name, size_t len, floatmax_t *value, HarbolMathFunc **fn, void *data, size_t dl, bool *is_func) {
	if( data!=&MARK || dl!=sizeof MARK ) bad="callback data changed"; if( strlen(name)!=len ) bad="name length wrong"; if( *is_func || *fn ) bad="function outputs preset";
	if( NEST ) { NEST=false; ld in=harbol_math_parse_expr("2*(3+[4-2]^3)/8-z",zcb,NULL,0); if( !same(in,-6.25L) ) bad="evaluating inside the callback gave another value"; COUNT("nested-evaluation"); NEST=true; }
	if( got>=en || strcmp(E[got].name,name) ) { bad="unexpected name"; } got++;
	for( int i=0; i<NV; i++ ) if( !strcmp(V[i].name,name) ) { if( V[i].fn ) { *fn=FN[V[i].fn]; *is_func=true; } else *value=V[i].v; }
}
static struct { char const *n; ld (*f)(ld); } const DEF[] = {{"sin",sinl},{"cos",cosl},{"tan",tanl},{"arcsin",asinl},{"arccos",acosl},{"arctan",atanl},{"ln",logl},{"log",log10l},{"floor",floorl},{"ceil",ceill},{"round",roundl},{"fraction",0},{"radians",0},{"degrees",0}};
static ld deff(unsigned i, ld x) { if( DEF[i].f ) return DEF[i].f(x); if( i==11 ) return x-floorl(x); ld pi=acosl(-1.0L); return i==12? x*(pi/180.0L) : x*(180.0L/pi); }
static int mode_default; static bool nogroup, open_tail; /* open_tail: text ends in a call without group, a following ^ would belong to its argument */
static ld g_add(int d), g_pow(int d), g_unary(int d);
static ld g_num(void) { char b[200]; size_t n=0, a, f; unsigned k=(unsigned)vf_below(10); if( k==0 ) { a=vf_range(50,90); f=vf_below(60); COUNT("long-number"); } else { a=vf_range(1,6); f=vf_chance(1,2)? vf_range(1,5) : 0; } if( f && vf_chance(1,5) ) a=0;
	for( size_t i=0; i<a; i++ ) b[n++]=(char)('0'+vf_below(10)); if( f || vf_chance(1,8) ) { if( n==0 && f==0 ) b[n++]='7'; b[n++]='.'; for( size_t i=0; i<f; i++ ) b[n++]=(char)('0'+vf_below(10)); } b[n]=0; vf_mix_bytes(b,n); w(b); COUNT("number"); return strtold(b,NULL); }
static ld g_paren(int d) { bool sq=vf_chance(1,2); w(sq?"[":"("); ld v=g_add(d-1); w(sq?"]":")"); open_tail=false; COUNT("grouped"); return v; }
static void sep(void) { if( xn && isalnum((unsigned char)X[xn-1]) ) put(' '); }
static void name(char const *s) { sep(); w(s); if( X[xn-1]!=' ' ) {} if( en<2000 ) strcpy(E[en++].name,s); }
static ld g_factor(int d) {
	if( budget ) budget--; unsigned k=(unsigned)vf_below(10); if( d<=0 || !budget ) k%=4; if( nogroup && (k==5||k==6) ) k=0; nogroup=open_tail=false; vf_mix(k);
	if( k<3 ) { sep(); return g_num(); }
	if( k==3 || k==4 ) { if( mode_default ) { bool e=vf_chance(1,2); sep(); w(e?"e":"pi"); return e? expl(1.0L):acosl(-1.0L); } int i=(int)vf_below(NV); while( V[i].fn ) i=(i+1)%NV; name(V[i].name); COUNT("variable"); if( strlen(V[i].name)==63 ) COUNT("longest-name"); return V[i].v; }
	if( k<7 ) return g_paren(d);
	/* function: with a group the argument is the group alone, without one it is a power expression */
	bool grp=vf_chance(2,3); int i; unsigned di=(unsigned)vf_below(14); if( mode_default ) { sep(); w(DEF[di].n); } else { for( i=(int)vf_below(NV); !V[i].fn; i=(i+1)%NV ); name(V[i].name); }
	ld a; if( grp ) a=g_paren(d); else { put(' '); nogroup=true; a=g_pow(d-1); nogroup=false; open_tail=true; }
	COUNT("function"); if( !grp ) COUNT("function-without-group"); return mode_default? deff(di,a) : FN[V[i].fn](a);
}
static ld g_unary(int d) { if( vf_chance(1,8) ) { w("-"); nogroup=false; COUNT("negated"); return -g_unary(d); } if( vf_chance(1,25) ) { w("+"); nogroup=false; return fabsl(g_unary(d)); } return g_factor(d); }
static ld g_pow(int d) { ld v=g_unary(d); while( !open_tail && vf_chance(1,8) ) { w("^"); ld r=g_unary(d); v=powl(v,r); COUNT("power"); } return v; }
static ld g_mul(int d) { ld v=g_pow(d); while( vf_chance(1,4) ) { if( vf_chance(1,2) ) { w("*"); v*=g_pow(d); } else { w("/"); v/=g_pow(d); } COUNT("product"); } return v; }
static ld g_add(int d) { ld v=g_mul(d); while( vf_chance(1,3) ) { if( vf_chance(1,2) ) { w("+"); v+=g_mul(d); } else { w("-"); v-=g_mul(d); } COUNT("sum"); } return v; }
static bool same(ld a, ld b) { if( isnan(a) || isnan(b) ) return isnan(a) && isnan(b); return a==b && signbit(a)==signbit(b); }
static void names(void) { for( int i=0; i<NV; i++ ) { size_t n = vf_chance(1,5)? 63 : vf_range(1,10); for( size_t k=0; k<n; k++ ) V[i].name[k] = k? "abcXYZ019"[vf_below(9)] : (char)('a'+i); V[i].name[n]=0; V[i].v=(ld)(int64_t)(vf_rand()%20001)/100-100; V[i].fn = i<2? i+1 : 0; } }
static void value(uint64_t idx) {
	(void)idx; mode_default=vf_chance(1,4); names(); ld v;
	xn=en=0; budget=120; nogroup=open_tail=false; v=g_add((int)vf_range(0,5)); X[xn]=0;
	char *y=vf_exact_str(X,xn); got=0; bad=NULL; NEST=vf_chance(1,8); vf_mix_bytes(X,xn);
	ld r = mode_default? harbol_math_parse_expr(y,harbol_math_default_var_func,NULL,0) : harbol_math_parse_expr(y,cb,&MARK,sizeof MARK); OP("%s = %Lg (expected %Lg)",vf_quote(X,xn),r,v);
	CHECK(!memcmp(y,X,xn+1),"math-source","the expression text changed"); if( !mode_default ) CHECK(!bad && got==en,"math-callback","callback: %s, %zu of %zu names resolved",bad?bad:"names missing",got,en);
	CHECK(same(r,v),"math-value","%s evaluates to %.20Lg, expected %.20Lg",vf_quote(X,xn),r,v); COUNT("evaluated"); if( isnan(v) ) COUNT("nan"); if( mode_default ) COUNT("default-functions");
	/* the same text again, and without a callback when it needs none */
	got=0; ld r2 = mode_default? harbol_math_parse_expr(y,harbol_math_default_var_func,NULL,0) : harbol_math_parse_expr(y,cb,&MARK,sizeof MARK); CHECK(same(r,r2),"math-repeat","second evaluation differs"); if( !mode_default && en==0 ) { r2=harbol_math_parse_expr(y,NULL,NULL,0); CHECK(same(r2,v),"math-value","without callback: %Lg",r2); COUNT("no-callback"); }
	vf_xfree(y); vf_leak_check("math-leak"); if( xn<3 ) vf_trivial();
}
static void anycb(char const *name, size_t len, floatmax_t *value, HarbolMathFunc **fn, void *data, size_t dl, bool *is_func) { (void)data; (void)dl; CHECK(strlen(name)==len && len>0 && len<64,"math-callback","name of length %zu says %zu",strlen(name),len); if( name[0]=='f' ) { *is_func=true; *fn = len>1? f_twice : NULL; } else if( name[0]!='q' ) *value=3; }
static void malformed(uint64_t idx) {
	(void)idx; static char const *tok[]={"(",")","[","]","+","-","*","/","^","1","2.5",".","..","1.2.3","f","fx","a","q","1a","a1"," ","$","_","1e5","\xC3","sin","pi","0x1F","#","="}; xn=0; size_t k=vf_below(25); for( size_t i=0; i<k; i++ ) { char const *t=tok[vf_below(30)]; while( *t ) put(*t++); } if( vf_chance(1,6) ) { size_t m=vf_range(60,200); char c="a1.(-"[vf_below(5)]; while( m-- ) put(c); COUNT("long-token"); } X[xn]=0; vf_mix_bytes(X,xn);
	char *y=vf_exact_str(X,xn); OP("evaluate %s",vf_quote(X,xn)); volatile ld r=harbol_math_parse_expr(y,anycb,NULL,0); r=harbol_math_parse_expr(y,harbol_math_default_var_func,NULL,0); { char scrub[4096]; memset(scrub,(int)vf_rand(),sizeof scrub); __asm__ volatile(""::"r"(scrub):"memory"); } ld r2=harbol_math_parse_expr(y,harbol_math_default_var_func,NULL,0); CHECK(r==r2 || (isnan(r) && isnan(r2)),"math-nondeterministic","the same text gives %Lg and then %Lg",r,r2); r=harbol_math_parse_expr(y,NULL,NULL,0); (void)r; CHECK(!memcmp(y,X,xn+1),"math-source","the expression text changed"); vf_xfree(y); vf_leak_check("math-leak"); COUNT("malformed"); if( !xn ) vf_trivial();
}
static void deep(uint64_t idx) { /* nesting far beyond any stack must neither crash nor run forever */
	static char const *const units[]={"(","[","-","+","f(","1-(","(-","2^-","a[-"," (","1+(2*["};
	char const *u=units[idx%11]; size_t ul=strlen(u), n=vf_range(50000,idx%4? 100000 : 3000000); char *y=vf_xmalloc(n*ul+64), *w=y; for( size_t i=0; i<n; i++ ) { memcpy(w,u,ul); w+=ul; } if( vf_chance(1,2) ) { *w++='1'; } if( vf_chance(1,2) ) { memset(w,')',30); w+=30; } *w=0;
	OP("evaluate %zu times \"%s\"",n,u); vf_mix(n); vf_mix(idx%11); volatile ld r=harbol_math_parse_expr(y,anycb,NULL,0); r=harbol_math_parse_expr(y,NULL,NULL,0); (void)r; vf_xfree(y); vf_leak_check("math-leak"); COUNT("deeply-nested");
}
/* long sums and well-formed nesting of some hundred levels */
static void chain(uint64_t idx) {
	size_t cap=2000000; char *t=vf_xmalloc(cap), *q=t; ld v=0; unsigned k=(unsigned)(idx%3); size_t m=0; names(); NEST=false; vf_mix(k);
	if( k==0 ) { m= vf_chance(1,4)? vf_range(65600,70000) : vf_range(500,9000); bool spaced=vf_chance(1,3); for( size_t i=0; i<m; i++ ) { unsigned x=(unsigned)vf_below(100); if( i ) { bool mi=vf_chance(1,2); if( spaced ) *q++=' '; *q++=mi? '-':'+'; v = mi? v-x : v+x; } else v=x; q+=sprintf(q,"%u",x); } COUNT("long-chain"); if( m>65535 ) COUNT("beyond-16-bit-chain"); }
	else if( k==1 ) { m=vf_range(100,400); char close[500]; for( size_t i=0; i<m; i++ ) { bool sq=vf_chance(1,2); if( vf_chance(1,4) ) { q+=sprintf(q,"%u+",(unsigned)(i%7)); } *q++=sq?'[':'('; close[i]=sq?']':')'; } q+=sprintf(q,"1.5"); v=1.5L; char *p=q; for( size_t i=m; i--; ) *q++=close[i]; *q=0; { /* value: all prefixes are sums */ for( char *x=t; x<p; x++ ) if( *x=='+' ) v+=x[-1]-'0'; } COUNT("nested-groups"); }
	else { m=vf_range(100,400); bool even=true; for( size_t i=0; i<m; i++ ) { *q++='-'; even=!even; } q+=sprintf(q,"4.25"); v=even? 4.25L : -4.25L; COUNT("sign-run"); }
	*q=0; vf_mix(m); size_t n=(size_t)(q-t); char *y=vf_exact_str(t,n); OP("chain %u of %zu",k,m); ld r=harbol_math_parse_expr(y,NULL,NULL,0); CHECK(same(r,v),"math-value","%zu terms or levels (%.60s...) evaluate to %.20Lg, expected %.20Lg",m,t,r,v); vf_xfree(y); vf_xfree(t); vf_leak_check("math-leak");
}
/* names, functions and groups hundreds of levels down and thousands of characters into a text */
static void far_names(uint64_t idx) {
	(void)idx; names(); NEST=false; en=0; size_t cap=400000; char *t=vf_xmalloc(cap), *q=t; size_t levels=vf_chance(1,3)? vf_range(1,3) : vf_range(10,400), per=levels<4? vf_range(100,500) : vf_range(1,4); static ld lv[401]; static char sg[401], br[401]; vf_mix(levels); vf_mix(per);
	for( size_t l=0; l<levels; l++ ) { ld v=0; size_t k=vf_range(1,per);
		for( size_t i=0; i<k && en<1900; i++ ) { int x=(int)vf_below(NV); ld tv; bool mi=vf_chance(1,2); if( i ) *q++=mi?'-':'+'; if( vf_chance(1,4) ) *q++=" \n\t"[vf_below(3)]; if( V[x].fn ) { int y=2+(int)vf_below(NV-2); bool sq=vf_chance(1,2); q+=sprintf(q,"%s%c%s%c",V[x].name,sq?'[':'(',V[y].name,sq?']':')'); strcpy(E[en++].name,V[x].name); strcpy(E[en++].name,V[y].name); tv=FN[V[x].fn](V[y].v); } else { q+=sprintf(q,"%s",V[x].name); strcpy(E[en++].name,V[x].name); tv=V[x].v; } vf_mix((uint64_t)x); v= i==0? tv : mi? v-tv : v+tv; if( i==0 && k==1 ) v=tv; }
		if( q[-1]=='[' || q[-1]=='(' || q==t ) { *q++='7'; v=7; }
		lv[l]=v; if( l+1<levels ) { sg[l]=vf_chance(1,2)?'-':'+'; br[l]=vf_chance(1,2)?'[':'('; *q++=sg[l]; *q++=br[l]; } }
	for( size_t l=levels-1; l--; ) { *q++= br[l]=='['? ']' : ')'; lv[l]= sg[l]=='-'? lv[l]-lv[l+1] : lv[l]+lv[l+1]; } *q=0; if( (size_t)(q-t)+200>cap ) { fprintf(stderr,"VF-HARNESS far_names\n"); _exit(3); }
	size_t n=(size_t)(q-t); vf_mix_bytes(t,n); char *y=vf_exact_str(t,n); got=0; bad=NULL; ld r=harbol_math_parse_expr(y,cb,&MARK,sizeof MARK); OP("names %zu levels, %zu names, %zu characters = %Lg",levels,en,n,r); CHECK(!bad && got==en,"math-callback","callback: %s, %zu of %zu names resolved, %zu levels deep, %zu characters",bad?bad:"names missing",got,en,levels,n); CHECK(same(r,lv[0]),"math-value","%zu names over %zu levels evaluate to %.20Lg, expected %.20Lg",en,levels,r,lv[0]); if( n>4096 ) COUNT("names-far"); if( levels>40 ) COUNT("names-deep"); vf_xfree(y); vf_xfree(t); vf_leak_check("math-leak");
}
struct vf_mode const vf_modes[] = { {"names", far_names}, {"value", value}, {"malformed", malformed}, {"deep", deep}, {"chain", chain}, {0} };
struct vf_probe const vf_probes[] = { {0} };
