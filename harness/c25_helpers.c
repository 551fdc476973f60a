/* C25: integer, bit, bounds and hash helpers against naive definitions (128-bit arithmetic, decimal printing). */
#include "vf.h"
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
typedef unsigned __int128 u128;
static size_t interesting(void) { size_t x; switch( vf_below(9) ) { case 8: { x=1; for( size_t k=vf_below(19); k--; ) x*=10; x=-(x+vf_below(3)-1); if( vf_chance(1,3) ) x=-((size_t)vf_below(3)+((size_t)1<<vf_below(63))-1); break; } case 0: x=vf_below(20); break; case 1: x=(size_t)1<<vf_below(64); break; case 2: x=((size_t)1<<vf_below(64))-1; break; case 3: x=((size_t)1<<vf_below(64))+1; break;
	case 4: { x=1; for( size_t k=vf_below(20); k--; ) x*=10; x+=vf_below(3)-1; break; } case 5: x=SIZE_MAX-vf_below(4); break; case 6: x=(size_t)vf_rand()>>vf_below(64); break; default: x=(size_t)SSIZE_MAX+vf_below(4)-1; } return x; }
static size_t nlog(size_t x, size_t b) { size_t r=0; while( x>=b ) { x/=b; r++; } return r; }
static size_t digits_base(size_t x, size_t b) { size_t r=1; while( x>=b ) { x/=b; r++; } return r; }
#define EQ(call,want) do { size_t g_=(size_t)(call), w_=(size_t)(want); CHECK(g_==w_,"helper-value","%s is %zu (0x%zx) for %zu (0x%zx), expected %zu (0x%zx)",#call,g_,g_,x,x,w_,w_); } while( 0 )
static void ints(uint64_t idx) { (void)idx; for( int k=0; k<40; k++ ) { size_t x=interesting(); OP("x = %zu",x); vf_mix(x);
	size_t ceil_=0; while( ceil_<x ) ceil_=ceil_*2+1; EQ(bitwise_ceil(x),ceil_); if( x<=SIZE_MAX/2 ) { size_t p=1; while( p<=x ) p*=2; EQ(next_pow_of_2(x),p); COUNT("next-power"); }
	size_t l2=0; while( l2<63 && (x>>(l2+1)) ) l2++; if( x ) { EQ(int_log2(x),l2); EQ(base_2_digits(x),l2+1); EQ(base_2_num_chars(x),l2+2); } else { EQ(int_log2(x),0); EQ(base_2_digits(x),0); COUNT("zero"); }
	EQ(int_log10(x),x? nlog(x,10) : 0); EQ(base_10_digits(x),digits_base(x,10)); EQ(base_10_num_chars_uint(x),digits_base(x,10)+1); char t[64]; size_t pl=(size_t)snprintf(t,sizeof t,"%zu",x); CHECK(base_10_digits(x)==pl,"helper-value","%zu has %zu digits, not %zu",x,pl,base_10_digits(x));
	ssize_t s=(ssize_t)x; size_t mag=s<0? -(size_t)s : (size_t)s; EQ(base_10_num_chars_int(s),digits_base(mag,10)+2); if( s<0 ) COUNT("negative"); if( s==SSIZE_MAX || s==-SSIZE_MAX-1 ) COUNT("extreme"); if( (size_t)snprintf(t,sizeof t,"%zd",s)+1>base_10_num_chars_int(s) ) vf_violation("helper-value","%zd does not fit in the promised %zu characters",s,base_10_num_chars_int(s));
	size_t al=(size_t)1<<vf_below(vf_chance(1,4)? 63 : 13); u128 up=((u128)x+al-1)/al*al; if( up<=SIZE_MAX ) { EQ(harbol_align_size(x,al),(size_t)up); EQ(harbol_pad_size(x,al),(size_t)(up-x)); CHECK(x+harbol_pad_size(x,al)==harbol_align_size(x,al),"helper-pad","padding and alignment of %zu to %zu disagree",x,al); COUNT("aligned"); } else { CHECK(harbol_pad_size(x,al)==(size_t)(up-x),"helper-pad","padding of %zu to %zu",x,al); }
	size_t al2=(size_t)1<<vf_below(16); CHECK(is_ptr_aligned((void*)(uintptr_t)x,al2)==(x%al2==0),"helper-aligned","is_ptr_aligned(0x%zx, %zu)",x,al2);
	for( size_t b=0; b<=8; b++ ) { size_t m=0; for( size_t q=0; q<b; q++ ) m=m<<8|0xff; CHECK(bytes_bitmask(b)==m,"helper-mask","mask of %zu byte(s) is 0x%zx, expected 0x%zx",b,bytes_bitmask(b),m); }
	size_t a=interesting(), b=interesting(), lo=a<b? a : b, hi=a<b? b : a; CHECK(is_uint_in_bounds(x,hi,lo)==(x>=lo && x<=hi),"helper-bounds","is_uint_in_bounds(%zu, %zu, %zu)",x,hi,lo); ssize_t sa=(ssize_t)a, sb=(ssize_t)b, sl=sa<sb? sa : sb, sh=sa<sb? sb : sa; CHECK(is_int_in_bounds(s,sh,sl)==(s>=sl && s<=sh),"helper-bounds","is_int_in_bounds(%zd, %zd, %zd)",s,sh,sl); if( lo && hi ) CHECK(is_uintptr_in_bounds((uintptr_t)x,hi,lo)==(x>=lo && x<=hi),"helper-bounds","is_uintptr_in_bounds"); if( x>=lo && x<=hi ) COUNT("in-bounds"); else COUNT("out-of-bounds"); COUNT("integer"); } }
static void logs(uint64_t idx) { size_t base; if( idx<62 ) base=idx+3; else switch( vf_below(6) ) { case 0: base=(size_t)1<<vf_range(2,63); break; case 1: base=((size_t)1<<vf_range(2,63))+1; break; case 2: base=((size_t)1<<vf_range(2,63))-1; break; case 3: base=SIZE_MAX-vf_below(3); break; case 4: base=(size_t)vf_range(3,3000); break; default: base=((size_t)vf_rand()>>vf_below(62))|4; } if( base<3 ) base=3;
	size_t tab[MAX_LOG_TABLE_SIZE], *pw=NULL; memset(tab,0x5a,sizeof tab); size_t n=make_int_log_tables(base,&tab,&pw); OP("make_int_log_tables(%zu) -> %zu power(s)",base,n); vf_mix(base); CHECK(n>0 && pw,"helper-tables","no tables for base %zu",base);
	size_t p=1, cnt=1; while( p<=SIZE_MAX/base ) { p*=base; cnt++; } CHECK(n>=cnt,"helper-tables","base %zu has %zu powers, only %zu listed",base,cnt,n); p=1; for( size_t i=0; i<cnt; i++ ) { CHECK(pw[i]==p,"helper-powers","power %zu of %zu is %zu, expected %zu",i,base,pw[i],p); if( i+1<cnt ) p*=base; }
	for( int k=0; k<150; k++ ) { size_t x=interesting(); if( vf_chance(1,2) ) { x=1; for( size_t i=vf_below(cnt); i--; ) x*=base; x+=vf_below(3)-1; } if( !x ) x=1; EQ(int_log(x,&tab,pw),nlog(x,base)); EQ(base_N_digits(x,&tab,pw),digits_base(x,base)); EQ(base_N_num_chars_uint(x,&tab,pw),digits_base(x,base)+1); ssize_t s=(ssize_t)x; size_t mag=s<0? -(size_t)s : (size_t)s; EQ(base_N_num_chars_int(s,&tab,pw),digits_base(mag,base)+2); COUNT("logarithm"); }
	vf_fail_at(1); size_t *q=NULL; size_t f=make_int_log_tables(base,&tab,&q); bool hit=vf_fail_hit(); vf_fail_at(0); if( hit ) { CHECK(f==0 && q==NULL,"helper-tables","allocation failure unnoticed"); COUNT("allocation-failed"); } else free(q); size_t *z=NULL; for( size_t small=0; small<3; small++ ) CHECK(make_int_log_tables(small,&tab,&z)==0 && !z,"helper-tables","tables for base %zu",small); free(pw); vf_leak_check("helper-leak"); }
static size_t sdbm(uint8_t const *k, size_t n, size_t h) { for( size_t i=0; i<n; i++ ) h=k[i]+h*65599u; return h; }
static void hashes(uint64_t idx) { (void)idx; for( int k=0; k<10; k++ ) { size_t n=vf_chance(1,8)? 0 : vf_below(vf_chance(1,10)? vf_chance(1,2)? 9000 : 500 : 40), x=n; static uint8_t b[9000]; if( n>4096 ) COUNT("long-key"); vf_bytes(b,n); size_t seed=vf_chance(1,4)? 0 : (size_t)vf_rand(); uint8_t *y=vf_exact_buf(b,n); OP("hash %s seed %zu",vf_quote(b,n>40? 40 : n),seed); vf_mix_bytes(b,n); EQ(array_hash(y,n,seed),sdbm(b,n,seed)); CHECK(n==0 || !memcmp(y,b,n),"helper-hash","key changed"); vf_xfree(y); if( !n ) COUNT("empty-key");
	for( size_t i=0; i<n; i++ ) b[i]=(uint8_t)(b[i]%127+1); char *s=vf_exact_str((char*)b,n), *s2=vf_exact_str((char*)b,n); EQ(string_hash(s,seed),sdbm(b,n,seed)); CHECK(string_hash(s,seed)==string_hash(s2,seed),"helper-hash","equal texts hash differently"); vf_xfree(s2); for( size_t i=0; i<n; i++ ) s[i]=(char)(b[i]|0x80); size_t h1=string_hash(s,seed); char *s3=vf_exact_str(s,n); CHECK(string_hash(s3,seed)==h1,"helper-hash","equal texts hash differently"); vf_xfree(s3); vf_xfree(s);
	size_t v=interesting(); x=v; uint8_t raw[8]; for( int i=0; i<8; i++ ) raw[i]=(uint8_t)(v>>8*i); EQ(int_hash(v,seed),sdbm(raw,8,seed)); double d=(double)(int64_t)v*0.37; memcpy(&x,&d,8); CHECK(float_hash(d,seed)==int_hash(x,seed),"helper-hash","float hash of %g",d); CHECK(ptr_hash((void*)v,seed)==ptr_hash((void*)v,seed),"helper-hash","pointer hash not deterministic"); COUNT("hash");
	char const *words[]={"alpha","beta","","gamma","alphabet","alpha"}; char w[20]; int pick=(int)vf_below(8); strcpy(w,pick<6? words[pick] : pick==6? "alph" : "zeta"); char *yw=vf_exact_str(w,strlen(w)); size_t got=cstr_switch(yw,"alpha","beta","","gamma","alphabet","alpha",NULL), want=pick==5? 0 : pick<6? (size_t)pick : SIZE_MAX; CHECK(got==want,"helper-switch","cstr_switch(%s) is %zu, expected %zu",w,got,want); CHECK(cstr_switch(yw,NULL)==SIZE_MAX,"helper-switch","found in an empty list"); vf_xfree(yw); COUNT("switch");
	{ static char T[20][12]; for( int i=0; i<20; i++ ) { size_t l=vf_below(8); for( size_t j=0; j<l; j++ ) T[i][j]=(char)('a'+(int)vf_below(2)); T[i][l]=0; } char q[12]; if( vf_chance(1,2) ) strcpy(q,T[vf_below(20)]); else { size_t l=vf_below(9); for( size_t j=0; j<l; j++ ) q[j]=(char)('a'+(int)vf_below(2)); q[l]=0; } char *yq=vf_exact_str(q,strlen(q)); size_t w3=SIZE_MAX; for( int i=20; i--; ) if( !strcmp(T[i],q) ) w3=(size_t)i;
	  size_t g3=cstr_switch(yq,T[0],T[1],T[2],T[3],T[4],T[5],T[6],T[7],T[8],T[9],T[10],T[11],T[12],T[13],T[14],T[15],T[16],T[17],T[18],T[19],NULL); CHECK(g3==w3,"helper-switch","%s among twenty texts: found %zd, expected %zd",q,(ssize_t)g3,(ssize_t)w3); vf_xfree(yq); COUNT("switch-many"); }
	{ static char pre[700], L[5][710]; size_t pl=vf_below(600); for( size_t i=0; i<pl; i++ ) pre[i]=(char)('a'+(int)vf_below(3)); pre[pl]=0; char const *suf[]={"x","y","","xx","x\xff"}; for( int i=0; i<5; i++ ) { strcpy(L[i],pre); strcat(L[i],suf[i]); } int w2=(int)vf_below(7); char q[710]; strcpy(q,w2<5? L[w2] : pre); if( w2==5 ) strcat(q,"z"); else if( w2==6 && pl ) q[vf_below(pl)]^=0x10; char *yq=vf_exact_str(q,strlen(q)); size_t g2=cstr_switch(yq,L[0],L[1],L[2],L[3],L[4],NULL); size_t e2=SIZE_MAX; for( int i=4; i>=0; i-- ) if( !strcmp(L[i],q) ) e2=(size_t)i; CHECK(g2==e2,"helper-switch","texts sharing %zu characters: found %zd, expected %zd",pl,(ssize_t)g2,(ssize_t)e2); vf_xfree(yq); COUNT("switch-long"); }
	{ uint64_t r=vf_rand(); uint8_t b1=(uint8_t)r; uint16_t b2=(uint16_t)r; uint32_t b4=(uint32_t)r; CHECK((int32_t)SIGN_EXTEND(b1)==(int8_t)b1 && (int32_t)SIGN_EXTEND(b2)==(int16_t)b2 && (int32_t)SIGN_EXTEND(b4)==(int32_t)b4,"helper-sign","sign extension of 0x%x, 0x%x or 0x%x",b1,b2,b4); COUNT("sign-extended"); } } }
struct vf_mode const vf_modes[]={{"ints",ints},{"logs",logs},{"hashes",hashes},{NULL,NULL}};
struct vf_probe const vf_probes[]={{NULL,NULL}};
