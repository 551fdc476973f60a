/* C06: harbol_bytebuffer against a plain byte sequence, in memory and through files. */
#include "vf.h"
#include <unistd.h>
#include "bytebuffer/bytebuffer.h"
#define MAXB 400000
static size_t maxb=20000; static bool large; static uint8_t b[70100];
static uint8_t *t; static size_t tl;
static void verify(struct HarbolByteBuf *s, char const *after) {
	CHECK(s->len==tl && harbol_bytebuffer_len(s)==tl, "buf-length", "after %s: length %zu, expected %zu", after, s->len, tl);
	CHECK(harbol_bytebuffer_cap(s)==s->cap && s->cap>=s->len, "buf-cap", "after %s: capacity %zu below length %zu", after, s->cap, s->len);
	CHECK(harbol_bytebuffer_get_buffer(s)==s->table, "buf-accessor", "accessor");
	if( tl==0 ) return;
	CHECK(s->table!=NULL, "buf-lost", "after %s: no table with %zu bytes", after, tl);
	if( memcmp(s->table,t,tl) ) for( size_t i=0; i<tl; i++ ) CHECK(s->table[i]==t[i], "buf-bytes", "after %s: byte %zu of %zu is %02x, expected %02x", after, i, tl, s->table[i], t[i]);
	if( vf_ledger_has(s->table) ) CHECK(vf_ledger_size(s->table)>=s->cap, "buf-cap", "after %s: capacity %zu exceeds the allocation of %zu bytes", after, s->cap, vf_ledger_size(s->table));
}
static void push(void const *p, size_t n) { memcpy(t+tl, p, n); tl+=n; }
static size_t gen(uint8_t *b, size_t max) { size_t n = large && max>=100? vf_size(vf_chance(1,6)? 70000:5000) : vf_chance(1,8)? 0 : vf_below(max+1); vf_bytes(b,n); if( vf_chance(1,3) ) for( size_t i=0; i<n; i++ ) if( b[i]&1 ) b[i]=0; return n; }
static char path[600];
static void spill(void const *p, size_t n) { FILE *f=fopen(path,"wb"); if( !f || (n && fwrite(p,1,n,f)!=n) ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } fclose(f); }
#if defined(harbol_bytebuffer_insert) && !defined(VF_NO_GENERICS)
#define GINS(s,v,fn) (vf_chance(1,3)? ({ COUNT("generic"); harbol_bytebuffer_insert((s),(v)); }) : fn((s),(v)))
#else
#define GINS(s,v,fn) fn((s),(v))
#endif
#define TYPED(name, type, fn) { type v; vf_bytes(&v, sizeof v); bool r=GINS(s, v, fn); OP(name " -> %d", r); nm=name; CHECK(r,"buf-insert",name " refused"); push(&v, sizeof v); COUNT("typed-insert"); }
static void history(uint64_t idx) {
	if( !t ) t = vf_xmalloc(MAXB*4);
	snprintf(path,sizeof path,"%s/b",vf_scratch());
	tl=0; struct HarbolByteBuf st, *s=&st; bool heap=vf_chance(1,2);
	if( heap ) { s=harbol_bytebuffer_new(); CHECK(s!=NULL,"buf-new","constructor failed"); } else st=harbol_bytebuffer_make();
	verify(s,"construction");
	size_t nops=vf_range(1,50); size_t n;
	for( size_t o=0; o<nops; o++ ) {
		unsigned op=(unsigned)vf_below(23); vf_mix(op); char const *nm="nothing";
		if( tl>maxb/2 && op<15 ) op=15; if( tl>4096 ) COUNT("long-buffer");
		switch( op ) {
		case 0: { unsigned k=(unsigned)vf_below(3); if( k==0 ) TYPED("insert_byte", uint8_t, harbol_bytebuffer_insert_byte) else if( k==1 ) TYPED("insert_byte", int8_t, harbol_bytebuffer_insert_byte) else TYPED("insert_byte", char, harbol_bytebuffer_insert_byte) } break;
		case 1: if( vf_chance(1,2) ) TYPED("insert_int16", uint16_t, harbol_bytebuffer_insert_int16) else TYPED("insert_int16", int16_t, harbol_bytebuffer_insert_int16) break;
		case 2: if( vf_chance(1,2) ) TYPED("insert_int32", uint32_t, harbol_bytebuffer_insert_int32) else TYPED("insert_int32", int32_t, harbol_bytebuffer_insert_int32) break;
		case 3: if( vf_chance(1,2) ) TYPED("insert_int64", uint64_t, harbol_bytebuffer_insert_int64) else TYPED("insert_int64", int64_t, harbol_bytebuffer_insert_int64) break;
		case 4: { uintptr_t v; vf_bytes(&v,sizeof v); bool r=harbol_bytebuffer_insert_ptr(s,v); OP("insert_ptr -> %d",r); nm="insert_ptr"; CHECK(r,"buf-insert","insert_ptr refused"); push(&v,sizeof v); COUNT("typed-insert"); } break;
		case 5: { uint32_t bits=(uint32_t)vf_rand(); if( (bits&0x7f800000u)==0x7f800000u ) bits=0x3fc00001u; float32_t v; memcpy(&v,&bits,4); bool r=GINS(s,v,harbol_bytebuffer_insert_float32); OP("insert_float32 -> %d",r); nm="insert_float32"; CHECK(r,"buf-insert","float32 refused"); push(&v,sizeof v); COUNT("typed-insert"); } break;
		case 6: { uint64_t bits=vf_rand(); if( (bits>>52&0x7ff)==0x7ff ) bits=UINT64_C(0x3ff8000000000001); float64_t v; memcpy(&v,&bits,8); bool r=GINS(s,v,harbol_bytebuffer_insert_float64); OP("insert_float64 -> %d",r); nm="insert_float64"; CHECK(r,"buf-insert","float64 refused"); push(&v,sizeof v); COUNT("typed-insert"); } break;
		case 7: { floatmax_t v=(floatmax_t)(int64_t)vf_rand()/(floatmax_t)3; size_t at=s->len; bool r=GINS(s,v,harbol_bytebuffer_insert_floatmax); OP("insert_floatmax -> %d",r); nm="insert_floatmax"; CHECK(r && s->len==at+sizeof v,"buf-insert","floatmax refused");
			if( sizeof v==16 ) memset(s->table+at+10,0,6); /* padding bytes carry no value */
			uint8_t z[sizeof v]; memset(z,0,sizeof z); memcpy(z,&v,sizeof v==16? 10:sizeof v); push(z,sizeof v); COUNT("typed-insert"); } break;
		case 8: case 9: { n=gen(b,vf_chance(1,6)? 250:20); for( size_t i=0; i<n; i++ ) if( !b[i] ) b[i]='z'; char *y=vf_exact_str((char*)b,n); bool r=GINS(s,y,harbol_bytebuffer_insert_cstr); OP("insert_cstr %zu -> %d",n,r); nm="insert_cstr"; CHECK(r,"buf-insert","cstr refused"); CHECK(!memcmp(y,b,n),"buf-source","source changed"); vf_xfree(y); push(b,n); t[tl++]=0; COUNT("cstr"); if( !n ) COUNT("empty-cstr"); } break;
		case 10: case 11: { n=1+gen(b,vf_chance(1,6)? 250:20); vf_bytes(b+n-1,1); void *y=vf_exact_buf(b,n); bool r=harbol_bytebuffer_insert_obj(s,y,n); memset(y,0x5A,n); vf_xfree(y); OP("insert_obj %zu -> %d",n,r); nm="insert_obj"; CHECK(r,"buf-insert","object refused"); push(b,n); COUNT("object"); } break;
		case 12: { bool absurd=vf_chance(1,6); size_t a = absurd? SIZE_MAX-vf_below(2*tl+3) : large? 1+vf_size(70000) : vf_chance(1,4)? vf_range(30,200) : vf_range(1,12); bool r=harbol_bytebuffer_insert_zeros(s,a); OP("insert_zeros %zd -> %d",(ssize_t)a,r); nm="insert_zeros"; vf_mix(a); CHECK(r==!absurd,"buf-zeros","inserting %zu zeros returned %d",a,r); if( r ) { memset(t+tl,0,a); tl+=a; COUNT("zeros"); } else COUNT("absurd-zeros-refused"); } break;
		case 13: { struct HarbolByteBuf q=harbol_bytebuffer_make(); n=1+gen(b,120); vf_bytes(b+n-1,1); CHECK(harbol_bytebuffer_insert_obj(&q,b,n),"buf-insert","refused"); bool del=vf_chance(1,6); if( del ) { CHECK(harbol_bytebuffer_del(&q,0,n),"buf-del","refused"); n=0; }
			bool r=harbol_bytebuffer_append(s,&q); OP("append %zu -> %d",n,r); nm="append"; CHECK(r,"buf-append","append refused"); CHECK(q.len==n && (!n || !memcmp(q.table,b,n)),"buf-source","append changed its source"); push(b,n); if( n ) q.table[0]^=0xFF; harbol_bytebuffer_clear(&q); COUNT("appended"); } break;
		case 14: { if( vf_chance(1,3) && s->table && tl<maxb/20 ) { bool r=harbol_bytebuffer_append(s,s); OP("append self -> %d",r); nm="append(self)"; CHECK(r,"buf-append","self append refused"); memcpy(t+tl,t,tl); tl*=2; COUNT("self-append"); break; }
			struct HarbolByteBuf q=harbol_bytebuffer_make(); unsigned k=(unsigned)vf_below(8); n = k==0? (tl && tl<70000? tl:1) : 1+gen(b,120); if( n>70000 ) n=70000; vf_bytes(b,n); CHECK(harbol_bytebuffer_insert_obj(&q,b,n),"buf-insert","refused"); if( k==1 ) { CHECK(harbol_bytebuffer_del(&q,0,n),"buf-del","refused"); n=0; }
			bool r=harbol_bytebuffer_copy(s,&q); OP("copy %zu over %zu -> %d",n,tl,r); nm="copy"; CHECK(r,"buf-copy","copy refused"); CHECK(q.len==n && (!n || !memcmp(q.table,b,n)),"buf-source","copy changed its source"); if( n<tl ) COUNT("copy-shorter"); else if( n==tl ) COUNT("copy-same-length"); else COUNT("copy-longer"); tl=0; push(b,n); if( n ) q.table[0]^=0xFF; harbol_bytebuffer_clear(&q); } break;
		case 15: case 16: { size_t i = vf_chance(1,6)? tl+vf_below(3) : vf_below(tl+1), a = vf_chance(1,6)? SIZE_MAX-vf_below(tl+3) : vf_chance(1,3)? tl : 1+vf_below(tl/2+3); if( a==0 ) a=1; bool r=harbol_bytebuffer_del(s,i,a); OP("del %zu+%zd of %zu -> %d",i,(ssize_t)a,tl,r); nm="del"; vf_mix(i); vf_mix(a);
			CHECK(r==(i<tl),"buf-del","deleting %zu bytes at %zu of %zu returned %d",a,i,tl,r); if( r ) { size_t k = a>tl-i? tl-i : a; memmove(t+i,t+i+k,tl-i-k); tl-=k; COUNT("deleted"); if( a>k ) COUNT("delete-clamped"); } else COUNT("delete-refused"); } break;
		case 17: case 18: { /* write, inspect the file, read back into a second buffer */
			FILE *f=fopen(path,"wb+"); if( !f ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } bool r=harbol_bytebuffer_to_file(s,f); OP("to_file %zu -> %d",tl,r); nm="to_file"; CHECK(r==(s->table!=NULL),"buf-write","writing %zu bytes returned %d",tl,r); fflush(f);
			verify(s,"to_file"); rewind(f); static uint8_t chk[MAXB*4]; size_t got=fread(chk,1,sizeof chk,f); CHECK(got==tl && !memcmp(chk,t,tl),"buf-file-bytes","file holds %zu bytes instead of the buffer's %zu, or other bytes",got,tl);
			struct HarbolByteBuf q=harbol_bytebuffer_make(); bool rr; if( vf_chance(1,2) ) { if( vf_chance(1,2) ) rewind(f); rr=harbol_bytebuffer_insert_from_file(&q,f); fclose(f); } else { fclose(f); rr=harbol_bytebuffer_insert_from_filename(&q,path); }
			CHECK(rr==(tl>0),"buf-read","reading %zu bytes back returned %d",tl,rr); CHECK(q.len==tl && (!tl || !memcmp(q.table,t,tl)),"buf-roundtrip","buffer read back holds %zu bytes, expected %zu, or other bytes",q.len,tl); harbol_bytebuffer_clear(&q); COUNT("file-roundtrip"); if( tl && memchr(t,0,tl) ) COUNT("file-with-nul"); if( !tl ) COUNT("file-empty"); } break;
		case 19: { if( large && vf_chance(1,2) ) { n=vf_range(1,20000); vf_bytes(b,n); if( n>8192 ) COUNT("large-file-inserted"); } else n=gen(b,200); spill(b,n); bool r; if( vf_chance(1,2) ) r=harbol_bytebuffer_insert_from_filename(s,path); else { FILE *f=fopen(path,"rb"); if( n && vf_chance(1,2) ) fseek(f,(long)(n/2),SEEK_SET); r=harbol_bytebuffer_insert_from_file(s,f); fclose(f); }
			OP("insert file of %zu -> %d",n,r); nm="insert_from_file"; CHECK(r==(n>0),"buf-read","inserting a file of %zu bytes returned %d",n,r); push(b,n); COUNT("file-inserted"); unlink(path); CHECK(!harbol_bytebuffer_insert_from_filename(s,path),"buf-read","missing file accepted"); } break;
		case 20: if( vf_chance(1,4) ) { harbol_bytebuffer_clear(s); OP("clear"); nm="clear"; tl=0; CHECK(s->table==NULL && s->cap==0,"buf-clear","clear keeps storage"); CHECK(vf_ledger_live()==(heap?1u:0u),"buf-clear","clear keeps memory"); COUNT("cleared"); } break;
		case 22: { /* a stream that accepts only some of the bytes, or none */
			if( !tl || tl>maxb/2 ) break; bool none=vf_chance(1,3); size_t room = none? 0 : 1+vf_below(tl+20); char *mem=vf_xcalloc(room+8,1); FILE *f; if( none ) { spill("x",1); f=fopen(path,"rb"); } else f=fmemopen(mem,room,"wb"); if( !f ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } setvbuf(f,NULL,_IONBF,0);
			bool r=harbol_bytebuffer_to_file(s,f); fclose(f); OP("to_file %zu into %zu -> %d",tl,room,r); nm="to_file(limited)"; CHECK(r==(!none && room>=tl),"buf-write","writing %zu bytes to a stream with room for %zu returned %d",tl,room,r); vf_xfree(mem); COUNT(r? "limited-fits":"write-failed"); } break;
		case 21: if( tl ) { size_t i=vf_below(tl); harbol_bytebuffer_get_buffer(s)[i]=t[i]=(uint8_t)vf_rand(); OP("poke %zu",i); nm="poke"; } break;
		}
		verify(s,nm);
	}
	unlink(path);
	if( heap ) { harbol_bytebuffer_free(&s); CHECK(s==NULL,"buf-free","pointer not reset"); harbol_bytebuffer_free(&s); } else { harbol_bytebuffer_clear(s); harbol_bytebuffer_clear(s); }
	vf_leak_check("buf-leak");
	if( nops<3 ) vf_trivial();
}
static void history_large(uint64_t idx) { large=true; maxb=MAXB; history(idx); large=false; maxb=20000; }
/* single pieces and files of more than 65535 bytes */
static void huge(uint64_t idx) {
	if( !t ) t = vf_xmalloc(MAXB*4);
	snprintf(path,sizeof path,"%s/b",vf_scratch()); tl=0; struct HarbolByteBuf s=harbol_bytebuffer_make(); size_t n=vf_range(65530,70000), z=vf_range(65530,70000), o=vf_range(65530,70000); OP("huge %zu %zu %zu",n,z,o); vf_mix(n); vf_mix(o);
	char *y=vf_xmalloc(n+1); for( size_t i=0; i<n; i++ ) y[i]=(char)(1+vf_below(255)); y[n]=0; unsigned order=(unsigned)vf_below(6); static unsigned char const P[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
	for( int k=0; k<3; k++ ) switch( P[order][k] ) { case 0: CHECK(harbol_bytebuffer_insert_cstr(&s,y),"buf-insert","text of %zu refused",n); push(y,n+1); break; case 1: CHECK(harbol_bytebuffer_insert_zeros(&s,z),"buf-zeros","%zu zeros refused",z); memset(t+tl,0,z); tl+=z; break; default: vf_bytes(b,o); CHECK(harbol_bytebuffer_insert_obj(&s,b,o),"buf-insert","object of %zu refused",o); push(b,o); }
	verify(&s,"huge inserts"); vf_xfree(y);
	FILE *f=fopen(path,"wb"); CHECK(f!=NULL,"harness","scratch"); CHECK(harbol_bytebuffer_to_file(&s,f),"buf-write","writing %zu bytes refused",tl); fclose(f); struct HarbolByteBuf q=harbol_bytebuffer_make(); if( vf_chance(1,2) ) CHECK(harbol_bytebuffer_insert_from_filename(&q,path),"buf-read","reading %zu bytes back refused",tl); else { f=fopen(path,"rb"); CHECK(harbol_bytebuffer_insert_from_file(&q,f),"buf-read","reading %zu bytes back refused",tl); fclose(f); }
	CHECK(q.len==tl && !memcmp(q.table,t,tl),"buf-roundtrip","%zu bytes read back, expected %zu",q.len,tl); 
	size_t at=vf_below(1000), k=vf_range(65536,tl-at); CHECK(harbol_bytebuffer_del(&s,at,k),"buf-del","refused"); memmove(t+at,t+at+k,tl-at-k); tl-=k; verify(&s,"huge delete"); CHECK(harbol_bytebuffer_append(&s,&q),"buf-append","refused"); memcpy(t+tl,q.table,q.len); tl+=q.len; verify(&s,"huge append"); CHECK(harbol_bytebuffer_copy(&s,&q),"buf-copy","refused"); CHECK(s.len==q.len && !memcmp(s.table,q.table,q.len),"buf-copy","copy of %zu bytes differs",q.len);
	tl=0; push(q.table,q.len); for( int r=0; r<2; r++ ) { n=vf_chance(1,2)? vf_range(1,6000) : vf_range(8000,60000); vf_bytes(b,n); f=fopen(path,"wb"); if( !f || fwrite(b,1,n,f)!=n || fclose(f) ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } if( vf_chance(1,2) ) CHECK(harbol_bytebuffer_insert_from_filename(&s,path),"buf-read","reading %zu bytes refused",n); else { f=fopen(path,"rb"); if( vf_chance(1,2) ) fseek(f,(long)vf_below(n+1),SEEK_SET); else if( vf_chance(1,2) ) fgetc(f); CHECK(harbol_bytebuffer_insert_from_file(&s,f),"buf-read","reading %zu bytes refused",n); fclose(f); } push(b,n); OP("file of %zu inserted at %zu",n,tl-n); verify(&s,"file into a large buffer"); }
	COUNT("beyond-16-bit-piece"); unlink(path); harbol_bytebuffer_clear(&q); harbol_bytebuffer_clear(&s); vf_leak_check("buf-leak");
}
struct vf_mode const vf_modes[] = { {"huge", huge}, {"history", history}, {"large", history_large}, {0} };
struct vf_probe const vf_probes[] = { {0} };
