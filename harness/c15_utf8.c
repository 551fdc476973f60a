/* C15: UTF-8 encoding and decoding are inverse for every code point, counts agree, and malformed or cut text never leads outside its bounds. */
#include "vf.h"
#include <unistd.h>
#include "lex/lex.h"
static size_t ref(uint32_t r, uint8_t o[4]) { if( r<0x80 ) { o[0]=(uint8_t)r; return 1; } if( r<0x800 ) { o[0]=(uint8_t)(0xC0|r>>6); o[1]=(uint8_t)(0x80|(r&63)); return 2; } if( r<0x10000 ) { o[0]=(uint8_t)(0xE0|r>>12); o[1]=(uint8_t)(0x80|(r>>6&63)); o[2]=(uint8_t)(0x80|(r&63)); return 3; } o[0]=(uint8_t)(0xF0|r>>18); o[1]=(uint8_t)(0x80|(r>>12&63)); o[2]=(uint8_t)(0x80|(r>>6&63)); o[3]=(uint8_t)(0x80|(r&63)); return 4; }
/* all code points: case i covers 1024 of them */
static void codepoints(uint64_t idx) {
	uint32_t base=(uint32_t)(idx%1088)*1024; vf_mix(base); uint8_t o[4];
	for( uint32_t r=base; r<base+1024; r++ ) {
		if( r==0 ) continue; if( r>=0x110000 ) break;
		size_t n=ref(r,o); char *buf=vf_exact_buf("\0\0\0\0",n);
		CHECK(rune_byte_len((int32_t)r)==n,"utf8-size","U+%X: size %zu, expected %zu",r,rune_byte_len((int32_t)r),n);
		size_t w=write_utf8_cstr(buf,n,(int32_t)r); CHECK(w==n && !memcmp(buf,o,n),"utf8-encode","U+%X encoded in %zu bytes, expected %zu, or other bytes",r,w,n);
		for( size_t s=0; s<n; s++ ) { char *small=vf_exact_buf("\7\7\7\7",s? s:1); CHECK(write_utf8_cstr(small,s,(int32_t)r)==0,"utf8-encode","U+%X fits in %zu bytes",r,s); for( size_t i=0; i<(s?s:1); i++ ) CHECK(small[i]==7,"utf8-encode","refused write of U+%X touched the buffer",r); vf_xfree(small); }
		int32_t d=-5; CHECK(get_utf8_len(buf[0])==n,"utf8-lead","lead byte %02x announces %zu bytes, expected %zu",o[0],get_utf8_len(buf[0]),n);
		CHECK(read_utf8(buf,n,&d)==n && d==(int32_t)r,"utf8-decode","U+%X decoded as %X",r,(unsigned)d); CHECK(read_utf8_rune(buf,n)==(int32_t)r,"utf8-decode","U+%X decoded as other rune",r);
		for( size_t s=1; s<n; s++ ) { char *cut=vf_exact_buf(o,s); d=-5; CHECK(read_utf8(cut,s,&d)==0 && d==-1,"utf8-cut","%zu of %zu bytes of U+%X decoded as %d",s,n,r,d); CHECK(read_utf8_rune(cut,s)==-1,"utf8-cut","cut U+%X decoded",r); vf_xfree(cut); COUNT("cut-sequence"); }
		vf_xfree(buf);
		if( (r&63)==5 ) { struct HarbolString t={0}; CHECK(write_utf8_str(&t,(int32_t)r) && t.len==n && !memcmp(t.cstr,o,n),"utf8-encode","string append of U+%X",r); harbol_string_clear(&t); }
		COUNT("code-point");
	}
	for( int i=0; i<20; i++ ) { int32_t bad=(int32_t)(0x110000+vf_below(0x7FEEFFFF)); char b[8]="......."; struct HarbolString t={0}; CHECK(rune_byte_len(bad)==0 && write_utf8_cstr(b,8,bad)==0 && !strcmp(b,".......") && !write_utf8_str(&t,bad) && t.len==0,"utf8-range","U+%X accepted",(unsigned)bad); COUNT("out-of-range"); }
	vf_leak_check("utf8-leak");
}
static uint32_t grune(void) { uint32_t r; do r=(uint32_t)(vf_chance(1,3)? 1+vf_below(0x7F) : vf_chance(1,3)? 0x80+vf_below(0x780) : vf_chance(1,2)? 0x800+vf_below(0xF800) : 0x10000+vf_below(0x100000)); while( r>=0xD800 && r<=0xDFFF ); if( vf_chance(1,8) ) { static uint32_t const e[]={1,0x7F,0x80,0x7FF,0x800,0xFFFF,0x10000,0x10FFFF,0xD7FF,0xE000}; r=e[vf_below(10)]; } return r; }
static void text(uint64_t idx) {
	(void)idx; size_t k=vf_chance(1,10)? 0 : vf_range(1,40), n=0; int32_t R[50]; char T[200]; for( size_t i=0; i<k; i++ ) { uint8_t o[4]; uint32_t r=grune(); size_t l=ref(r,o); memcpy(T+n,o,l); n+=l; R[i]=(int32_t)r; vf_mix(r); } R[k]=0; T[n]=0;
	char *y=vf_exact_str(T,n); int32_t *ry=vf_exact_buf(R,(k+1)*4); OP("text of %zu code points, %zu bytes: %s",k,n,vf_quote(T,n));
	CHECK(get_str_rune_len(y)==k,"utf8-count","%zu code points counted as %zu",k,get_str_rune_len(y));
	size_t rl=999; int32_t *p=utf8_cstr_to_rune(y,n,&rl); CHECK(p && rl==k && !memcmp(p,R,(k+1)*4),"utf8-decode-text","text decoded to %zu code points, expected %zu, or other values",rl,k); CHECK(vf_ledger_size(p)>=(k+1)*4,"utf8-decode-text","result too small"); free(p);
	bool res; struct HarbolString s=harbol_string_make(y,&res); p=utf8_str_to_rune(&s,&rl); CHECK(p && rl==k && !memcmp(p,R,(k+1)*4),"utf8-decode-text","string decoded to %zu code points, expected %zu, or other values",rl,k); free(p); harbol_string_clear(&s);
	size_t cl=999; char *c=rune_to_utf8_cstr(ry,&cl); CHECK(cl==n && (n==0 || (c && !memcmp(c,T,n+1))),"utf8-encode-text","encoded to %zu bytes, expected %zu, or other bytes",cl,n); free(c);
	struct HarbolString q=rune_to_utf8_str(ry); CHECK(q.len==n && (n==0 || !memcmp(q.cstr,T,n+1)),"utf8-encode-text","encoded to %zu bytes, expected %zu",q.len,n); harbol_string_clear(&q);
	size_t ix=0,cnt=0; for(;;) { size_t was=ix; int32_t r=utf8_to_rune_iter(y,n,&ix); if( r==-1 ) { CHECK(ix==was && was==n,"utf8-iterate","iteration stopped at byte %zu of %zu",was,n); break; } CHECK(cnt<k && r==R[cnt],"utf8-iterate","iteration step %zu gave %X",cnt,(unsigned)r); cnt++; } CHECK(cnt==k,"utf8-iterate","%zu of %zu code points iterated",cnt,k); COUNT("text-roundtrip");
	if( k ) { int32_t f=R[vf_below(k)]; size_t e=0; while( R[e]!=f ) e++; CHECK(find_rune_in_runes(ry,f)==e && has_rune_in_runes(ry,f),"utf8-find","rune found at %zu, expected %zu",find_rune_in_runes(ry,f),e); CHECK(check_is_rune(ry,k,e,f) && !check_is_rune(ry,k,k,f) && !check_is_rune(ry,k,e,f+1),"utf8-find","check_is_rune"); } CHECK(find_rune_in_runes(ry,0x7FFFFFF)==SIZE_MAX && !has_rune_in_runes(ry,0x7FFFFFF),"utf8-find","absent rune found");
	if( vf_chance(1,6) ) { char path[600]; snprintf(path,sizeof path,"%s/u",vf_scratch()); FILE *f=fopen(path,"wb+"); if( !f || (n && fwrite(T,1,n,f)!=n) ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } fflush(f); rl=77; p=runes_from_stream(f,&rl); CHECK(n==0? (p==NULL && rl==0) : (p && rl==k && !memcmp(p,R,(k+1)*4)),"utf8-stream","stream decoded to %zu code points, expected %zu",rl,k); free(p); fclose(f); unlink(path); COUNT("stream"); }
	if( k ) { /* only the first bytes of the text belong to it */
		size_t cut=vf_below(n+1), i=0, st=0; char *z=vf_exact_buf(T,cut? cut:1); for(;;) { uint8_t o[4]; size_t l= st<k? ref((uint32_t)R[st],o) : 0, was=i; int32_t r= was<cut || cut? utf8_to_rune_iter(z,cut,&i) : -1; if( !l || was+l>cut ) { CHECK(i==was && r==-1,"utf8-iterate","%zu of %zu bytes: iteration past the given length at %zu gave %d",cut,n,was,r); break; } CHECK(r==R[st] && i==was+l,"utf8-iterate","%zu of %zu bytes: step %zu gave %X",cut,n,st,(unsigned)r); st++; } vf_xfree(z); COUNT("cut-text"); }
	vf_xfree(y); vf_xfree(ry); vf_leak_check("utf8-leak"); if( k==0 ) vf_trivial();
}
/* texts of more than 64K code points */
static void longtext(uint64_t idx) {
	size_t k= idx%3==0? vf_range(65530,70000) : vf_range(500,9000), n=0; int32_t *R=vf_xmalloc((k+1)*4); char *T=vf_xmalloc(k*4+1); bool wide=vf_chance(1,2); for( size_t i=0; i<k; i++ ) { uint8_t o[4]; uint32_t r= wide? grune() : 0x41+(uint32_t)vf_below(26); size_t l=ref(r,o); memcpy(T+n,o,l); n+=l; R[i]=(int32_t)r; } R[k]=0; T[n]=0; vf_mix(k); vf_mix_bytes(T,64); OP("text of %zu code points, %zu bytes",k,n);
	CHECK(get_str_rune_len(T)==k,"utf8-count","%zu code points counted as %zu",k,get_str_rune_len(T)); size_t rl=9; int32_t *p=utf8_cstr_to_rune(T,n,&rl); CHECK(p && rl==k && !memcmp(p,R,(k+1)*4),"utf8-decode-text","text decoded to %zu code points, expected %zu, or other values",rl,k); free(p);
	size_t cl=9; char *c=rune_to_utf8_cstr(R,&cl); CHECK(cl==n && c && !memcmp(c,T,n+1),"utf8-encode-text","encoded to %zu bytes, expected %zu, or other bytes",cl,n); free(c);
	size_t ix=0; for( size_t i=0; i<k; i++ ) { int32_t r=utf8_to_rune_iter(T,n,&ix); CHECK(r==R[i],"utf8-iterate","step %zu of %zu gave %X",i,k,(unsigned)r); } CHECK(ix==n && utf8_to_rune_iter(T,n,&ix)==-1,"utf8-iterate","iteration ended at %zu of %zu",ix,n);
	{ int32_t *q=vf_xmalloc((k+1)*4); for( size_t i=0; i<k; i++ ) q[i]=7; size_t at=k-1-vf_below(3); q[at]=R[at]==7? 8:R[at]; q[k]=0; CHECK(find_rune_in_runes(q,q[at])==at && check_is_rune(q,k,at,q[at]) && !check_is_rune(q,at,at,q[at]),"utf8-find","rune at %zu of %zu not found there",at,k); vf_xfree(q); }
	{ char path[600]; snprintf(path,sizeof path,"%s/l",vf_scratch()); FILE *f=fopen(path,"wb+"); if( !f || fwrite(T,1,n,f)!=n ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } fflush(f); p=runes_from_stream(f,&rl); CHECK(p && rl==k && !memcmp(p,R,(k+1)*4),"utf8-stream","stream decoded to %zu code points, expected %zu",rl,k); free(p); fclose(f); unlink(path); }
	COUNT("long-text"); if( k>65535 ) COUNT("beyond-16-bit-text"); vf_xfree(R); vf_xfree(T); vf_leak_check("utf8-leak");
}
static void malformed(uint64_t idx) {
	(void)idx; size_t n=vf_range(1,20); char T[40]; for( size_t i=0; i<n; i++ ) T[i]= vf_chance(1,2)? (char)(0x80+vf_below(128)) : vf_chance(1,2)? (char)(0xC0+vf_below(64)) : (char)(1+vf_below(127)); T[n]=0; vf_mix_bytes(T,n);
	char *y=vf_exact_str(T,n); OP("malformed %s",vf_quote(T,n)); size_t c=get_str_rune_len(y); CHECK(c>=1 && c<=n,"utf8-malformed","%zu bytes counted as %zu",n,c); size_t rl=999; int32_t *p=utf8_cstr_to_rune(y,n,&rl); CHECK(p && rl==c && p[rl]==0,"utf8-malformed","decoded to %zu code points, counted %zu",rl,c); free(p);
	size_t ix=0, steps=0; for(;;) { size_t was=ix; utf8_to_rune_iter(y,n,&ix); CHECK(ix<=n,"utf8-malformed","iteration left the text: %zu of %zu",ix,n); if( ix==was ) break; CHECK(++steps<=n,"utf8-malformed","iteration does not end"); }
	/* without a terminator directly behind it */
	char *z=vf_exact_buf(T,n); int32_t r; size_t at=vf_below(n), u=read_utf8(z+at,n-at,&r); CHECK(u<=n-at,"utf8-malformed","read %zu of %zu bytes",u,n-at); read_utf8_rune(z+at,n-at); ix=at; utf8_to_rune_iter(z,n,&ix); CHECK(ix<=n,"utf8-malformed","iteration left the text"); vf_xfree(z);
	/* a terminator inside the given length ends the text there */
	{ size_t k=vf_below(n), st=0; z=vf_exact_buf(T,n); for( size_t i=0; i<n; i++ ) z[i]= i==k? 0 : (char)(1+vf_below(127)); r=7; CHECK(read_utf8(z+k,n-k,&r)==0 && r==-1 && read_utf8_rune(z+k,n-k)==0,"utf8-nul","the terminator decoded as a code point (%d)",r); ix=0; while( utf8_to_rune_iter(z,n,&ix)!=-1 ) CHECK(++st<=k && ix==st,"utf8-nul","iteration went past the terminator at %zu of %zu",k,n); CHECK(st==k && ix==k,"utf8-nul","iteration over a text of %zu bytes ended at %zu",k,ix); vf_xfree(z); COUNT("inner-terminator"); }
	if( vf_chance(1,8) ) { char path[600]; snprintf(path,sizeof path,"%s/m",vf_scratch()); FILE *f=fopen(path,"wb+"); if( !f || fwrite(T,1,n,f)!=n ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } fflush(f); p=runes_from_stream(f,&rl); CHECK(p && rl==c,"utf8-stream","malformed stream"); free(p); fclose(f); unlink(path); COUNT("malformed-stream"); }
	vf_xfree(y); vf_leak_check("utf8-leak"); COUNT("malformed");
}
struct vf_mode const vf_modes[] = { {"codepoints", codepoints}, {"text", text}, {"malformed", malformed}, {"longtext", longtext}, {0} };
struct vf_probe const vf_probes[] = { {0} };
