/* C26: memory and file helpers against shadow copies; every position of allocation failure inside the multi-buffer helpers. */
#define _GNU_SOURCE
#include "vf.h"
#include <sys/stat.h>
#include <unistd.h>
#include <wchar.h>
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
enum { MAXB=5 };
static void fill(uint8_t *p, size_t n) { for( size_t i=0; i<n; i++ ) p[i]=(uint8_t)(vf_rand()|1); }
static size_t count(void) { return vf_chance(1,6)? 0 : vf_chance(1,8)? vf_range(100, vf_chance(1,4)? 16000 : 2000) : vf_range(1,30); }
static void growth(uint64_t idx) { (void)idx; static uint8_t sh[MAXB][64*16400];
	/* single buffer */
	{ size_t es=vf_range(1,24), n=count(), steps=vf_range(1,6); uint8_t *p=NULL; bool have=vf_chance(1,2); if( have ) { p=malloc(n*es? n*es : 1); fill(p,n*es); memcpy(sh[0],p,n*es); } else n=0;
	for( size_t s=0; s<steps; s++ ) { size_t m=count(); unsigned how=(unsigned)vf_below(8); OP("recalloc %zu -> %zu elements of %zu",n,m,es); vf_mix(n*100003+m*31+es);
		if( how==0 && p ) { size_t huge=SIZE_MAX/es+1+vf_below(5); if( es>1 ) { uint8_t *q=harbol_recalloc(p,huge,es,n); CHECK(!q,"recalloc-huge","%zu elements of %zu granted",huge,es); CHECK(vf_ledger_has(p) && !memcmp(p,sh[0],n*es),"recalloc-kept","buffer changed by a refused request"); COUNT("impossible-size"); } continue; }
		if( how==1 ) { vf_fail_at(1); uint8_t *q=harbol_recalloc(p,m,es,n); bool hit=vf_fail_hit(); vf_fail_at(0); if( hit ) { CHECK(!q && (!p || (vf_ledger_has(p) && !memcmp(p,sh[0],n*es))),"recalloc-kept","buffer lost when the allocation failed"); COUNT("allocation-failed"); continue; } vf_violation("recalloc-noalloc","no allocation"); }
		uint8_t *q=harbol_recalloc(p,m,es,n); CHECK(q,"recalloc-result","refused"); CHECK(vf_ledger_size(q)>=m*es,"recalloc-size","block has %zu bytes, %zu needed",vf_ledger_size(q),m*es); size_t kept=n<m? n : m; CHECK(!memcmp(q,sh[0],kept*es),"recalloc-old","old elements lost"); for( size_t i=kept*es; i<m*es; i++ ) CHECK(q[i]==0,"recalloc-zero","byte %zu of the new part is %u",i,q[i]); p=q; n=m; fill(p,n*es); memcpy(sh[0],p,n*es); COUNT("recalloc"); if( m>n ) COUNT("grown"); }
	harbol_cleanup(&p); CHECK(!p,"cleanup","not nulled"); harbol_cleanup(&p); vf_leak_check("recalloc-leak"); }
	/* several buffers */
	{ size_t es[MAXB]; for( int i=0; i<MAXB; i++ ) es[i]=vf_chance(1,4)? vf_range(17,64) : vf_range(1,16); void *b[MAXB]; for( int i=0; i<MAXB; i++ ) b[i]=(void*)&es; size_t nb=vf_below(MAXB+1), n=count(); OP("multi_calloc %zu buffers of %zu",nb,n);
	if( vf_chance(1,3) ) { vf_fail_at(vf_range(1,MAXB)); bool r=harbol_multi_calloc(n,nb,&b[0],es[0],&b[1],es[1],&b[2],es[2],&b[3],es[3],&b[4],es[4]); bool hit=vf_fail_hit(); vf_fail_at(0); CHECK(r==!hit,"multi-calloc-result","returned %d",r); if( hit ) { for( size_t i=0; i<nb; i++ ) CHECK(!b[i],"multi-calloc-undone","buffer %zu kept after failure",i); CHECK(vf_ledger_live()==0,"multi-calloc-leak","blocks left after failure"); COUNT("allocation-failed"); for( size_t i=nb; i<MAXB; i++ ) CHECK(b[i]==(void*)&es,"multi-calloc-extent","a buffer beyond the count was touched"); return; } goto have; }
	CHECK(harbol_multi_calloc(n,nb,&b[0],es[0],&b[1],es[1],&b[2],es[2],&b[3],es[3],&b[4],es[4]),"multi-calloc-result","refused");
	have: for( size_t i=0; i<nb; i++ ) { CHECK(vf_ledger_has(b[i]) && vf_ledger_size(b[i])>=n*es[i],"multi-calloc-size","buffer %zu too small",i); for( size_t k=0; k<n*es[i]; k++ ) CHECK(((uint8_t*)b[i])[k]==0,"multi-calloc-zero","buffer %zu not zeroed",i); fill(b[i],n*es[i]); memcpy(sh[i],b[i],n*es[i]); } for( size_t i=nb; i<MAXB; i++ ) CHECK(b[i]==(void*)&es,"multi-calloc-extent","a buffer beyond the count was touched"); COUNT("multi");
	for( size_t s=vf_below(4); s--; ) { size_t m=count(); bool fail=vf_chance(1,3); void *was[MAXB]; memcpy(was,b,sizeof b); OP("multi_recalloc %zu -> %zu%s",n,m,fail?" with failure":""); if( fail ) vf_fail_at(vf_range(1,MAXB+1)); size_t live=vf_ledger_live(); bool r=harbol_multi_recalloc(m,n,nb,&b[0],es[0],&b[1],es[1],&b[2],es[2],&b[3],es[3],&b[4],es[4]); bool hit=fail && vf_fail_hit(); vf_fail_at(0); CHECK(vf_ledger_live()==live,"multi-recalloc-leak","%zu blocks became %zu",live,vf_ledger_live());
		CHECK(r==!hit,"multi-recalloc-result","returned %d",r); size_t now=hit? n : m, kept=n<now? n : now; if( hit ) COUNT("allocation-failed"); for( size_t i=0; i<nb; i++ ) { if( hit ) CHECK(b[i]==was[i] && vf_ledger_has(b[i]),"multi-recalloc-unchanged","buffer %zu changed by a failed call",i); CHECK(vf_ledger_size(b[i])>=now*es[i],"multi-recalloc-size","buffer %zu too small",i); CHECK(!memcmp(b[i],sh[i],kept*es[i]),"multi-recalloc-old","old elements of buffer %zu lost",i); for( size_t k=kept*es[i]; k<now*es[i]; k++ ) CHECK(((uint8_t*)b[i])[k]==0,"multi-recalloc-zero","new part of buffer %zu not zeroed",i); } for( size_t i=nb; i<MAXB; i++ ) CHECK(b[i]==(void*)&es,"multi-recalloc-extent","a buffer beyond the count was touched"); n=now; for( size_t i=0; i<nb; i++ ) { fill(b[i],n*es[i]); memcpy(sh[i],b[i],n*es[i]); } COUNT("multi-recalloc"); }
	for( size_t i=0; i<nb; i++ ) if( vf_chance(1,6) ) { free(b[i]); b[i]=NULL; COUNT("null-cleaned"); } void *keep=malloc(3); void *b2[MAXB]; memcpy(b2,b,sizeof b); if( vf_chance(1,2) ) harbol_multi_cleanup(nb,&b[0],&b[1],&b[2],&b[3],&b[4]); else { void **list[MAXB+1]={0}; for( size_t i=0; i<nb; i++ ) list[i]=(void**)&b[i]; harbol_multi_cleanup(MAXB+1,list[0],list[1],list[2],list[3],list[4],list[5]); } for( size_t i=0; i<nb; i++ ) CHECK(!b[i] && !vf_ledger_has(b2[i]),"multi-cleanup","buffer %zu not released",i); for( size_t i=nb; i<MAXB; i++ ) CHECK(b[i]==(void*)&es,"multi-cleanup","a buffer beyond the count was touched"); CHECK(vf_ledger_has(keep),"multi-cleanup","unrelated block released"); free(keep); vf_leak_check("multi-leak"); } }
static void copies(uint64_t idx) { (void)idx; size_t n=count(); uint8_t *src=vf_xmalloc(n? n : 1); vf_bytes(src,n); if( vf_chance(1,2) ) for( size_t i=0; i<n; i++ ) src[i]%=4; vf_mix_bytes(src,n); uint8_t *x=vf_exact_buf(src,n);
	{ uint8_t *dst=vf_xmalloc(n? n : 1); void *e=harbol_mempcpy(dst,x,n); OP("mempcpy %zu",n); CHECK(e==dst+n && !memcmp(dst,src,n),"mempcpy","wrong end or bytes"); int c=(int)(vf_chance(1,2)? (n? src[vf_below(n)] : 0) : vf_below(256)); memset(dst,0xee,n); e=harbol_memccpy(dst,x,c,n); OP("memccpy %zu until %d",n,c); size_t at=0; while( at<n && src[at]!=c ) at++; if( at<n ) { CHECK(e==dst+at+1 && !memcmp(dst,src,at+1),"memccpy","wrong end or bytes"); for( size_t i=at+1; i<n; i++ ) CHECK(dst[i]==0xee,"memccpy-extent","byte %zu behind the stop byte was written",i); COUNT("stop-byte-found"); } else { CHECK(!e && !memcmp(dst,src,n),"memccpy","wrong result without stop byte"); COUNT("stop-byte-absent"); } vf_xfree(dst); }
	{ uint8_t *d=harbol_resize_string(NULL,1,&(size_t){0},n); CHECK(d && d[n]==0,"resize-string","new string"); size_t w=vf_chance(1,2)? 1 : vf_chance(1,2)? 2 : 4, len=0; free(d); d=NULL; static uint8_t sh[4*16010]; size_t cur=0; for( size_t s=vf_range(1,5); s--; ) { size_t m=count(); OP("resize_string %zu -> %zu units of %zu",cur,m,w); bool fail=vf_chance(1,6); if( fail ) vf_fail_at(1); uint8_t *q=harbol_resize_string(d,w,&len,m); bool hit=fail && vf_fail_hit(); vf_fail_at(0); if( hit ) { CHECK(!q && len==cur && (!d || !memcmp(d,sh,cur*w)),"resize-string-kept","string changed by a failed call"); COUNT("allocation-failed"); continue; } CHECK(q && len==m,"resize-string","length %zu, expected %zu",len,m); CHECK(vf_ledger_size(q)>=(m+1)*w,"resize-string-size","no room for the terminator"); size_t kept=cur<m? cur : m; CHECK(!memcmp(q,sh,kept*w),"resize-string-old","old text lost"); for( size_t i=kept*w; i<(m+1)*w; i++ ) CHECK(q[i]==0,"resize-string-zero","byte %zu of the new part is %u",i,q[i]); d=q; cur=m; fill(d,cur*w); memcpy(sh,d,cur*w); COUNT("resized"); } free(d); vf_leak_check("resize-leak"); }
	{ uint8_t *d=dup_data(x,n); OP("dup_data %zu",n); CHECK(d && d!=x && !memcmp(d,src,n) && vf_ledger_size(d)>=n,"dup-data","wrong copy"); free(d); for( size_t i=0; i<n; i++ ) src[i]=(uint8_t)(src[i]%255+1); char *y=vf_exact_str((char*)src,n); size_t k=vf_below(n+2); if( k>n ) k=n; char *c=dup_cstr(k,y); OP("dup_cstr %zu of %zu",k,n); CHECK(c && !memcmp(c,src,k) && c[k]==0 && vf_ledger_size(c)>=k+1,"dup-cstr","wrong copy of %zu characters",k); free(c);
	  { size_t more=n+vf_range(1,vf_chance(1,4)? 5000 : 40); c=dup_cstr(more,y); OP("dup_cstr %zu of %zu",more,n); CHECK(c && !memcmp(c,src,n) && vf_ledger_size(c)>=more+1,"dup-cstr","wrong copy of %zu characters",n); for( size_t i=n; i<=more; i++ ) CHECK(!c[i],"dup-cstr","byte %zu behind a text of %zu is %d",i,n,c[i]); free(c); } vf_xfree(y); COUNT("duplicated"); if( n>5000 ) COUNT("copy-long");
	vf_fail_at(1); void *f=vf_chance(1,2)? dup_data(x,n) : (void*)dup_cstr(0,""); bool hit=vf_fail_hit(); vf_fail_at(0); CHECK(hit? !f : 1,"dup-failed","result without memory"); if( !hit ) free(f); vf_leak_check("dup-leak"); }
	{ char want[4000]; int a=(int)vf_rand(); double d=(double)(int64_t)vf_rand()/(double)(1+vf_below(1u<<20)); char *text=vf_exact_str((char*)src,n>200? 200 : n); size_t pad=vf_chance(1,10)? vf_range(1,3000) : vf_range(1,40); char *g; OP("sprintf_alloc"); unsigned k=(unsigned)vf_below(5); switch( k ) { case 0: snprintf(want,sizeof want,"%s",text); g=sprintf_alloc("%s",text); break; case 1: snprintf(want,sizeof want,"%d|%*d|%g",a,(int)pad,a,d); g=sprintf_alloc("%d|%*d|%g",a,(int)pad,a,d); break; case 2: snprintf(want,sizeof want,"%.3f<%s>%c%%",d,text,'c'); g=sprintf_alloc("%.3f<%s>%c%%",d,text,'c'); break; case 3: want[0]=0; g=sprintf_alloc("%s",""); break; default: snprintf(want,sizeof want,"%zu %zu %zu %zu %s %s %s",pad,n,pad,n,text,text,text); g=sprintf_alloc("%zu %zu %zu %zu %s %s %s",pad,n,pad,n,text,text,text); }
	CHECK(g && !strcmp(g,want),"sprintf-alloc","got %s",g? vf_quote(g,strlen(g)) : "nothing"); CHECK(vf_ledger_size(g)>strlen(want),"sprintf-alloc-size","block too small"); free(g); vf_fail_at(1); g=sprintf_alloc("%d %s",a,text); bool hit=vf_fail_hit(); vf_fail_at(0); if( hit ) CHECK(!g,"sprintf-alloc-failed","result without memory"); else free(g); wchar_t const bad[]={0x110000+5,0}; if( vf_chance(1,8) ) { g=sprintf_alloc("<%ls>",bad); CHECK(!g,"sprintf-alloc-error","a text came back for arguments that cannot be formatted"); COUNT("unformattable"); } vf_xfree(text); COUNT("formatted"); vf_leak_check("sprintf-leak"); }
	vf_xfree(x); vf_xfree(src); }
static void shifts(uint64_t idx) { (void)idx; size_t es[3]={vf_range(1,20),vf_range(1,20),vf_range(1,8)}; size_t n=vf_below(vf_chance(1,5)? vf_chance(1,6)? 6000 : 80 : 8), cap=n; if( vf_chance(1,120) ) { if( vf_chance(1,2) ) { n=cap=vf_range(65537,150000); } else { n=cap=vf_range(2,12); for( int i=0; i<3; i++ ) es[i]=vf_range(65537,90000); } COUNT("shift-vast"); } if( n>1000 ) COUNT("shift-long"); uint8_t *b[3], *m[3]; for( int i=0; i<3; i++ ) { m[i]=vf_xmalloc(n*es[i]+1); fill(m[i],n*es[i]); b[i]=vf_exact_buf(m[i],n*es[i]); }
	for( size_t s=vf_range(1,6); s--; ) { size_t at=vf_chance(1,8)? n+vf_below(3) : vf_below(n+1), am; switch( vf_below(7) ) { case 0: am=0; break; case 1: am=SIZE_MAX-vf_below(3); break; case 2: am=n; break; case 3: am=n>at? n-at+vf_below(3)-1 : 1; break; case 4: am=SIZE_MAX-at+vf_below(3)-1; break; default: am=vf_range(1,4); } size_t nb=vf_range(0,3); bool multi=vf_chance(1,2); if( !multi ) nb=1; OP("%s remove %zu at %zu of %zu (%zu buffers)",multi?"multi":"single",am,at,n,nb); vf_mix(at*1009+n*31+(am<100? am : 99)+nb*7);
		size_t len=n; bool r=multi? multi_array_shift_up(&len,at,am,nb,b[0],es[0],b[1],es[1],b[2],es[2]) : array_shift_up(b[0],&len,at,es[0],am); if( at>=n ) { CHECK(!r && len==n,"shift-outside","position %zu of %zu accepted",at,n); COUNT("shift-outside"); }
		else { size_t eff=am? am : 1; if( eff>n-at ) { eff=n-at; COUNT("shift-past-end"); } CHECK(r && len==n-eff,"shift-length","length %zu, expected %zu",len,n-eff); if( eff==n ) COUNT("shift-all"); for( size_t i=0; i<nb; i++ ) { memmove(m[i]+at*es[i],m[i]+(at+eff)*es[i],(n-at-eff)*es[i]); memset(m[i]+(n-eff)*es[i],0,eff*es[i]); } COUNT("shift"); if( nb==3 ) COUNT("shift-three"); }
		for( int i=0; i<3; i++ ) CHECK(!memcmp(b[i],m[i],cap*es[i]),"shift-bytes","buffer %d has wrong bytes",i); if( len!=n && nb<3 ) break; n=len; }
	for( int i=0; i<3; i++ ) { vf_xfree(b[i]); vf_xfree(m[i]); } vf_leak_check("shift-leak"); }
static void files(uint64_t idx) { (void)idx; if( chdir(vf_scratch()) ) _exit(3); size_t n=vf_chance(1,6)? 0 : vf_chance(1,6)? vf_range(4000,70000) : vf_chance(1,8)? (size_t[]){4095,4096,4097,8192,65536}[vf_below(5)] : vf_range(1,300); uint8_t *c=vf_xmalloc(n+1); vf_bytes(c,n); if( n>8 && vf_chance(1,2) ) { static char const *const S[]={"\r\n","\n\r","\n","\r\n\r\n","\x1a","\xEF\xBB\xBF","\xFF\xFE"," \t","#!"}; for( int e=0; e<2; e++ ) { char const *s=S[vf_below(9)]; memcpy(e? c : c+n-strlen(s),s,strlen(s)); } for( size_t k=vf_below(4); k--; ) { size_t at=vf_below(n-4); memcpy(c+at,S[vf_below(9)],1); } COUNT("line-ends"); } vf_mix_bytes(c,n>50? 50 : n); vf_mix(n); FILE *f=fopen("data","wb"); if( !f || fwrite(c,1,n,f)!=n || fclose(f) ) _exit(3); OP("file of %zu bytes",n);
	f=fopen("data","rb"); size_t skip=vf_below(n+1); for( size_t i=0; i<skip && i<100; i++ ) getc(f); CHECK(get_file_size(f)==(ssize_t)n,"file-size","file of %zu bytes reported as %zd",n,get_file_size(f)); CHECK(ftell(f)==0,"file-rewound","position %ld after the size query",ftell(f)); size_t got=12345; if( skip ) getc(f);
	for( int k=0; k<3; k++ ) { got=12345; bool fail=vf_chance(1,8); if( fail ) vf_fail_at(1); uint8_t *b=k==0? make_buffer_from_file(f,&got) : k==1? make_buffer_from_binary("data",&got) : (uint8_t*)make_buffer_from_text("data",&got); bool hit=fail && vf_fail_hit(); vf_fail_at(0); if( n==0 || hit ) { if( hit && n==0 ) {} if( n==0 ) { CHECK(!b,"file-empty","buffer for an empty file"); COUNT("empty-file"); } else if( b==NULL ) COUNT("allocation-failed"); free(b); continue; }
		CHECK(b,"file-buffer","no buffer for %zu bytes",n); CHECK(got==n,"file-count","%zu bytes reported, %zu in the file",got,n); CHECK(vf_ledger_size(b)>=n+1 && b[n]==0,"file-terminated","buffer not terminated"); CHECK(!memcmp(b,c,n),"file-bytes","bytes differ from the file"); harbol_cleanup(&b); COUNT("file"); if( n>4096 ) COUNT("large-file"); }
	fclose(f); got=777; CHECK(!make_buffer_from_binary("absent",&got) && !make_buffer_from_text("absent",&got) && !make_buffer_from_text("",&got),"file-missing","buffer for a missing file"); struct stat st; CHECK(stat("absent",&st),"file-created","the missing file was created"); COUNT("missing-file");
	mkdir("dir",0777); vf_fail_from(0); got=777; uint8_t *d=make_buffer_from_binary("dir",&got); CHECK(!d,"file-directory","buffer of %zu bytes for a directory",got); free(d); COUNT("directory");
	f=fopen("data","rb"); uint8_t *now=vf_xmalloc(n+1); CHECK(f && fread(now,1,n+1,f)==n && !memcmp(now,c,n),"file-changed","the file itself changed"); fclose(f); vf_xfree(now); vf_xfree(c); unlink("data"); rmdir("dir"); vf_leak_check("file-leak"); }
/* more than 65535 bytes or elements through every helper */
static void vast(uint64_t idx) { (void)idx; size_t es= vf_chance(1,2)? vf_range(1,8) : vf_range(65537,80000), n= es>8? vf_range(2,6) : vf_range(65537,140000), m= es>8? vf_range(2,9) : vf_range(65537,200000); OP("vast %zu -> %zu of %zu",n,m,es); vf_mix(n*31+m*7+es);
	uint8_t *sh=vf_xmalloc(n*es+1); fill(sh,n*es); sh[n*es]=0;
	{ uint8_t *p=malloc(n*es); memcpy(p,sh,n*es); uint8_t *q=harbol_recalloc(p,m,es,n); CHECK(q && vf_ledger_size(q)>=m*es,"recalloc-size","too small"); size_t k=(n<m? n:m)*es; CHECK(!memcmp(q,sh,k),"recalloc-old","old elements lost"); for( size_t i=k; i<m*es; i++ ) CHECK(q[i]==0,"recalloc-zero","byte %zu of the new part is %u",i,q[i]); harbol_cleanup(&q); }
	{ void *a=NULL, *b=NULL; CHECK(harbol_multi_calloc(n,2,&a,es,&b,(size_t)3),"multi-calloc-result","refused"); for( size_t i=0; i<n*es; i++ ) CHECK(((uint8_t*)a)[i]==0,"multi-calloc-zero","byte %zu",i); for( size_t i=0; i<n*3; i++ ) CHECK(((uint8_t*)b)[i]==0,"multi-calloc-zero","byte %zu",i); memcpy(a,sh,n*es); memset(b,9,n*3); CHECK(harbol_multi_recalloc(m,n,2,&a,es,&b,(size_t)3),"multi-recalloc-result","refused"); size_t k=n<m? n:m; CHECK(vf_ledger_size(a)>=m*es && vf_ledger_size(b)>=m*3,"multi-recalloc-size","too small"); CHECK(!memcmp(a,sh,k*es),"multi-recalloc-old","old elements lost"); for( size_t i=k*es; i<m*es; i++ ) CHECK(((uint8_t*)a)[i]==0,"multi-recalloc-zero","byte %zu",i); for( size_t i=0; i<m*3; i++ ) CHECK(((uint8_t*)b)[i]==(i<k*3? 9:0),"multi-recalloc-old","byte %zu of the second buffer",i); harbol_multi_cleanup(2,&a,&b); CHECK(!a && !b,"multi-cleanup","not nulled"); }
	{ uint8_t *d=dup_data(sh,n*es); CHECK(d && d!=sh && vf_ledger_size(d)>=n*es && !memcmp(d,sh,n*es),"dup-data","wrong copy"); uint8_t *o=vf_xmalloc(n*es); CHECK(harbol_mempcpy(o,d,n*es)==o+n*es && !memcmp(o,sh,n*es),"mempcpy","wrong end or bytes"); size_t at=vf_range(65536,n*es-1); memset(d,1,n*es); d[at]=7; memset(o,0xee,n*es); CHECK(harbol_memccpy(o,d,7,n*es)==o+at+1 && !memcmp(o,d,at+1),"memccpy","stop byte at %zu",at); for( size_t i=at+1; i<n*es; i++ ) CHECK(o[i]==0xee,"memccpy-extent","byte %zu behind the stop byte was written",i); free(d); vf_xfree(o);
	  char *c=dup_cstr(n*es,(char*)sh); CHECK(c && strlen(c)==n*es && !memcmp(c,sh,n*es),"dup-cstr","wrong copy"); char *f=sprintf_alloc("<%s>%d",c,5); CHECK(f && strlen(f)==n*es+3 && f[0]=='<' && !memcmp(f+1,sh,n*es) && !strcmp(f+n*es+1,">5"),"sprintf-alloc","wrong text"); free(f); free(c); }
	{ size_t len=0; uint8_t *t=harbol_resize_string(NULL,1,&len,n*es); CHECK(t && len==n*es,"resize-string","refused"); memcpy(t,sh,n*es); size_t m2=m*es; uint8_t *q=harbol_resize_string(t,1,&len,m2); CHECK(q && len==m2,"resize-string","length"); size_t k=n*es<m2? n*es:m2; CHECK(!memcmp(q,sh,k),"resize-string-old","old text lost"); for( size_t i=k; i<=m2; i++ ) CHECK(q[i]==0,"resize-string-zero","byte %zu",i); free(q); }
	vf_xfree(sh); COUNT("vast"); vf_leak_check("vast-leak"); }
struct vf_mode const vf_modes[]={{"vast",vast},{"growth",growth},{"copies",copies},{"shifts",shifts},{"files",files},{NULL,NULL}};
struct vf_probe const vf_probes[]={{NULL,NULL}};
