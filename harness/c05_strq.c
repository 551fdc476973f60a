/* C05: harbol_string queries against direct examination of the text. */
#include "vf.h"
#include <ctype.h>
#include "str/str.h"
static unsigned alpha; static bool large; static char t[20100], nd[20100]; static size_t offs[20100];
static char gen_char(void) { switch( alpha ) { case 0: return (char)('a'+vf_below(2)); case 1: return 'a'; case 2: return (char)(1+vf_below(255)); default: return "ab\n\xc3\xa9 AB"[vf_below(8)]; } }
static size_t gen_text(char *b, size_t max) { size_t n=vf_chance(1,12)? 0 : vf_range(1,max); for( size_t i=0; i<n; i++ ) b[i]=gen_char(); b[n]=0; return n; }
static void query(uint64_t idx) {
	bool res; alpha=(unsigned)vf_below(4);
	size_t tl = gen_text(t, large? 1+(vf_chance(1,2)? vf_below(2000) : vf_size(20000)) : vf_chance(1,4)? 100 : 14);
	if( tl>1 && vf_chance(1,3) ) for( size_t i=0; i<tl/2; i++ ) if( vf_chance(19,20) ) t[tl-1-i]=t[i];
	struct HarbolString s=harbol_string_make(t,&res); CHECK(res==(tl>0),"strq-make","construction");
	vf_mix_bytes(t,tl); OP("text %s",vf_quote(t,tl));
	char *before = s.cstr; 
	for( int rep=0; rep<6; rep++ ) {
		size_t nl; if( tl && vf_chance(2,3) ) { size_t o=vf_below(tl); nl=vf_range(1,tl-o); if( nl>3 && vf_chance(2,3) ) nl = large && vf_chance(1,2)? vf_range(1,nl) : vf_range(1,3); memcpy(nd,t+o,nl); nd[nl]=0; if( vf_chance(1,6) ) nd[vf_below(nl)]=gen_char(); } else nl=gen_text(nd,vf_chance(1,4)? 110 : 4);
		char *x=vf_exact_str(nd,nl); vf_mix_bytes(nd,nl); OP("needle %s",vf_quote(nd,nl));
		/* non-overlapping count, all (overlapping) offsets */
		size_t cnt=0, no=0; if( nl ) { for( size_t i=0; i+nl<=tl; ) { if( !memcmp(t+i,nd,nl) ) { cnt++; i+=nl; } else i++; } for( size_t i=0; i+nl<=tl; i++ ) if( !memcmp(t+i,nd,nl) ) offs[no++]=i; }
		size_t r=harbol_string_count_cstr(&s,x); CHECK(r==cnt,"strq-count","counted %zu occurrences, expected %zu",r,cnt);
		if( nl>255 && cnt ) COUNT("long-needle"); if( cnt ) COUNT("needle-found"); else COUNT("needle-absent"); if( no>cnt ) COUNT("needle-overlaps");
		size_t ask=vf_below(no+4); size_t *out=vf_xmalloc((ask+1)*sizeof *out); for( size_t i=0; i<=ask; i++ ) out[i]=0x5151;
		bool ok=harbol_string_cstr_offsets(&s,x,out,ask);
		if( s.cstr==NULL || !nl ) CHECK(!ok,"strq-offsets","offsets of an empty needle or unset text accepted");
		else for( size_t i=0; i<ask; i++ ) CHECK(out[i]==(i<no? offs[i]:SIZE_MAX),"strq-offsets","offset %zu is %zd, expected %zd",i,(ssize_t)out[i],(ssize_t)(i<no? offs[i]:SIZE_MAX));
		CHECK(out[ask]==0x5151,"strq-offsets","wrote beyond the requested number of offsets"); if( ask>no ) COUNT("offsets-exhausted");
		vf_xfree(out);
		/* comparison */
		if( s.cstr ) { int c=harbol_string_cmpcstr(&s,x);
#if defined(harbol_string_cmp) && !defined(VF_NO_GENERICS)
		CHECK((harbol_string_cmp(&s,x)==0)==(c==0) && (harbol_string_cmp(&s,(char const*)x)==0)==(c==0),"strq-generic","the generic comparison with %s disagrees",vf_quote(nd,nl)); CHECK((harbol_string_cmp(&s,&s)==0)==(harbol_string_cmpstr(&s,&s)==0),"strq-generic","the generic comparison of strings disagrees");
#endif
		 CHECK((c==0)==(nl==tl && !memcmp(t,nd,tl)),"strq-compare","comparison of %s and %s gave %d",vf_quote(t,tl),vf_quote(nd,nl),c);
			struct HarbolString q=harbol_string_make(nd,&res); if( q.cstr ) { int d=harbol_string_cmpstr(&s,&q), e=harbol_string_cmpstr(&q,&s); CHECK((d==0)==(nl==tl && !memcmp(t,nd,tl)) && (d<0)==(e>0),"strq-compare","string comparison gave %d / %d",d,e); int w=strcmp(t,nd); CHECK((d<0)==(w<0) && (d>0)==(w>0),"strq-compare-order","comparison order %d, expected sign of %d",d,w); }
			harbol_string_clear(&q); CHECK(harbol_string_cmpcstr(&s,t)==0,"strq-compare","text differs from itself");
			if( tl>1 ) { /* the text against one that it begins with */ size_t pl= vf_chance(1,3)? tl-1 : tl>256 && vf_chance(1,2)? vf_range(250,tl-1) : vf_range(1,tl-1); memcpy(nd,t,pl); nd[pl]=0; char *z=vf_exact_str(nd,pl); CHECK(harbol_string_cmpcstr(&s,z)!=0,"strq-compare","text of %zu equals its first %zu characters",tl,pl); q=harbol_string_make(z,&res); vf_xfree(z); int d=harbol_string_cmpstr(&s,&q), e=harbol_string_cmpstr(&q,&s); CHECK(d>0 && e<0,"strq-compare-order","text of %zu and its first %zu characters compare as %d / %d",tl,pl,d,e); z=vf_exact_str(t,tl); CHECK(harbol_string_cmpcstr(&q,z)!=0,"strq-compare","first %zu characters equal the text of %zu",pl,tl); vf_xfree(z); harbol_string_clear(&q); if( pl>255 ) COUNT("long-prefix"); } }
		CHECK(harbol_string_cmpcstr(&s,NULL)!=0,"strq-compare","equal to NULL");
		vf_xfree(x);
	}
	for( int rep=0; rep<4; rep++ ) { char ch=gen_char(); size_t f=SIZE_MAX, c=0; for( size_t i=0; i<tl; i++ ) if( t[i]==ch ) { c++; if( f==SIZE_MAX ) f=i; }
		CHECK(harbol_string_count_char(&s,ch)==c,"strq-count-char","character count"); CHECK(harbol_string_find_char(&s,ch)==f,"strq-find-char","found at %zd, expected %zd",(ssize_t)harbol_string_find_char(&s,ch),(ssize_t)f); if( c ) COUNT("char-found"); else COUNT("char-absent"); }
	{ bool pal=tl>0; for( size_t i=0; i<tl/2; i++ ) pal&=t[i]==t[tl-1-i]; if( tl ) CHECK(harbol_string_is_palindrome(&s)==pal,"strq-palindrome","palindrome test gave %d",!pal); else harbol_string_is_palindrome(&s); if( pal && tl>2 ) COUNT("palindrome"); CHECK(harbol_string_empty(&s)==(tl==0),"strq-empty","emptiness"); CHECK(harbol_string_len(&s)==tl,"strq-len","length"); }
	CHECK(s.cstr==before && s.len==tl && (!tl || !memcmp(s.cstr,t,tl+1)),"strq-modified","a query modified the text");
	/* scanning */
	{ int a=(int)vf_rand(), b2=(int)vf_below(1000), ga=-77, gb=-77; char w[40], gw[40]="?"; size_t wl=vf_range(1,20); for( size_t i=0; i<wl; i++ ) w[i]=(char)('a'+vf_below(26)); w[wl]=0; struct HarbolString q={0};
		harbol_string_format(&q,true,"%d %s %d",a,w,b2); int r=harbol_string_scan(&q,"%d %39s %d",&ga,gw,&gb); CHECK(r==3 && ga==a && gb==b2 && !strcmp(gw,w),"strq-scan","scanned %d fields (%d %s %d)",r,ga,gw,gb);
		gb=-5; r=harbol_string_scan(&q,"%d %d",&ga,&gb); CHECK(r==1 && ga==a && gb==-5,"strq-scan","partial scan gave %d",r); harbol_string_clear(&q); r=harbol_string_scan(&q,"%d",&ga); CHECK(r<=0,"strq-scan","scan of no text gave %d",r); COUNT("scanned"); }
	harbol_string_clear(&s); vf_leak_check("strq-leak");
	if( tl==0 ) vf_trivial();
}
static void query_large(uint64_t idx) { large=true; query(idx); large=false; }
/* texts of 60000 to 150000 characters */
static char ht[150100], hn[150100];
static void huge(uint64_t idx) { (void)idx; vf_set_cpu_limit(60); bool res; size_t n=vf_chance(1,3)? vf_range(65530,65540) : vf_range(60000,150000); unsigned k=(unsigned)vf_range(1,4); for( size_t i=0; i<n; i++ ) ht[i]=(char)('a'+vf_below(k)); ht[n]=0; if( vf_chance(1,2) ) for( size_t q=vf_below(5); q--; ) ht[vf_range(n>66000? 65500 : 0,n-1)]='z'; bool mir=vf_chance(1,2); if( mir ) { for( size_t i=0; i<n/2; i++ ) ht[n-1-i]=ht[i]; if( vf_chance(1,2) ) { size_t p=vf_below(n); ht[p]='y'; } } vf_mix_bytes(ht,n); OP("text of %zu",n);
	struct HarbolString s=harbol_string_make(ht,&res); CHECK(res,"strq-make","construction"); bool pal=true; for( size_t i=0; i<n/2; i++ ) pal&=ht[i]==ht[n-1-i]; bool g=harbol_string_is_palindrome(&s); CHECK(g==pal,"strq-palindrome","palindrome test gave %d",g); COUNT("huge-palindrome");
	for( char c='a'; c<='z'; c++ ) { size_t q=0, f=SIZE_MAX; for( size_t i=0; i<n; i++ ) if( ht[i]==c ) { if( !q++ ) f=i; } size_t a=harbol_string_count_char(&s,c), b=harbol_string_find_char(&s,c); CHECK(a==q,"strq-count-char","%c: %zu, expected %zu",c,a,q); CHECK(b==f,"strq-find-char","%c: %zd, expected %zd",c,(ssize_t)b,(ssize_t)f); if( q>65535 ) COUNT("huge-char-count"); if( f!=SIZE_MAX && f>65535 ) COUNT("huge-find"); }
	for( int rep=0; rep<4; rep++ ) { size_t p=vf_below(n), nl=vf_range(1,n-p); if( rep==0 ) nl=1; else if( rep==1 && nl>6 ) nl=vf_range(1,6); else if( vf_chance(1,2) && n-p>65541 ) nl=vf_range(65530,65540); memcpy(hn,ht+p,nl); hn[nl]=0; char *x=vf_exact_str(hn,nl); size_t cnt=0, no=0; for( size_t i=0; i+nl<=n; ) if( !memcmp(ht+i,hn,nl) ) { cnt++; i+=nl; } else i++;
		size_t *ex=vf_xmalloc((n+1)*sizeof *ex); for( size_t i=0; i+nl<=n; i++ ) if( !memcmp(ht+i,hn,nl) ) ex[no++]=i; size_t r=harbol_string_count_cstr(&s,x); OP("needle of %zu: %zu, %zu overlapping -> %zu",nl,cnt,no,r); CHECK(r==cnt,"strq-count","counted %zu, expected %zu",r,cnt); if( cnt>65535 ) COUNT("huge-count");
		if( nl<100 || no<20 ) { size_t ask=no+vf_below(3), *out=vf_xmalloc((ask+1)*sizeof *out); out[ask]=0x5151; bool ok=harbol_string_cstr_offsets(&s,x,out,ask); CHECK(ok,"strq-offsets","refused"); for( size_t i=0; i<ask; i++ ) CHECK(out[i]==(i<no? ex[i] : SIZE_MAX),"strq-offsets","offset %zu is %zd, expected %zd",i,(ssize_t)out[i],(ssize_t)(i<no? ex[i] : SIZE_MAX)); CHECK(out[ask]==0x5151,"strq-offsets","wrote beyond the requested number of offsets"); if( no && ex[no-1]>65535 ) COUNT("huge-offset"); vf_xfree(out); } vf_xfree(ex);
		int c=harbol_string_cmpcstr(&s,x); CHECK((c==0)==(nl==n),"strq-compare","comparison gave %d",c); vf_xfree(x); }
	/* differs only past 64K */ memcpy(hn,ht,n+1); CHECK(harbol_string_cmpcstr(&s,hn)==0,"strq-compare","text differs from itself"); size_t p=n-1-vf_below(n>65540? n-65540 : 3); hn[p]='@'; struct HarbolString q=harbol_string_make(hn,&res); int d=harbol_string_cmpstr(&s,&q), e=harbol_string_cmpstr(&q,&s); CHECK(d>0 && e<0 && harbol_string_cmpcstr(&s,hn)!=0,"strq-compare","texts differing at %zu compare as %d / %d",p,d,e); COUNT("huge-compared");
	/* a short text against one longer by about 65536 that it begins */
	if( n>65600 ) { size_t sl=vf_range(1,60), ll=65536+vf_below(sl+2); memcpy(hn,ht,ll); hn[ll]=0; struct HarbolString a={0}, b={0}; char sv=ht[sl]; ht[sl]=0; harbol_string_clear(&a); a=harbol_string_make(ht,&res); ht[sl]=sv; b=harbol_string_make(hn,&res); char *x=vf_exact_str(hn,ll); CHECK(harbol_string_cmpcstr(&a,x)!=0,"strq-compare","text of %zu equals one of %zu that it begins",sl,ll); CHECK(harbol_string_cmpstr(&a,&b)<0 && harbol_string_cmpstr(&b,&a)>0,"strq-compare","texts of %zu and %zu, one the start of the other, compare as %d",sl,ll,harbol_string_cmpstr(&a,&b)); vf_xfree(x); x=vf_exact_str(ht,0); memcpy(hn,ht,sl); hn[sl]=0; CHECK(harbol_string_cmpcstr(&b,hn)!=0,"strq-compare","text of %zu equals its first %zu characters",ll,sl); vf_xfree(x); harbol_string_clear(&a); harbol_string_clear(&b); memcpy(hn,ht,n+1); hn[p]='@'; COUNT("huge-prefix"); }
	memcpy(hn,ht,n+1); { size_t pl= vf_chance(1,2)? n-1 : vf_range(1,n-1); hn[pl]=0; harbol_string_clear(&q); q=harbol_string_make(hn,&res); CHECK(harbol_string_cmpstr(&s,&q)>0 && harbol_string_cmpstr(&q,&s)<0,"strq-compare-order","text of %zu and its first %zu characters compare as %d / %d",n,pl,harbol_string_cmpstr(&s,&q),harbol_string_cmpstr(&q,&s)); } harbol_string_clear(&q); harbol_string_clear(&s); vf_leak_check("strq-leak"); }
struct vf_mode const vf_modes[] = { {"huge", huge}, {"query", query}, {"large", query_large}, {0} };
struct vf_probe const vf_probes[] = { {0} };
