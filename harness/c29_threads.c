/* C29: every thread works on its own objects (all modules); ThreadSanitizer watches for races, and what each thread saw must be what the
 * same calls give when they run alone. A second mode lets all threads query the same objects through const pointers. */
#include "mix.h"
#include <pthread.h>
#include <sched.h>
#include <sys/stat.h>
#include "plugins/plugins.h"
#include "harbol_common_includes.h"
enum { MAXT=6 };
static __thread uint64_t t_msgs;
void __real_harbol_write_msg(size_t *cnt, FILE *stream, char const *filename, char const *type, char const *color, uint32_t const *line, uint32_t const *col, char const *fmt, ...);
void __wrap_harbol_write_msg(size_t *cnt, FILE *stream, char const *filename, char const *type, char const *color, uint32_t const *line, uint32_t const *col, char const *fmt, ...) {
	(void)stream; char b[600]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a);
	char *g=NULL; size_t n=0; FILE *f=open_memstream(&g,&n); __real_harbol_write_msg(cnt,f,filename,type,color,line,col,"%s",b); fclose(f); t_msgs=hb(t_msgs,g,n); vf_xfree(g);
}
struct work { uint64_t seed, result, checks; size_t id, calls, objs; bool delays; uint64_t *tickets; enum kind only; };
static uint64_t g_ticket; static pthread_barrier_t g_bar; static bool g_par;
static void file_for(struct obj *o, size_t id, size_t i, uint64_t seed) { if( o->k!=K_STRING && o->k!=K_BYTES && o->k!=K_CFG ) return; snprintf(o->file,sizeof o->file,"t%zu_%zu",id,i); FILE *f=fopen(o->file,"wb"); rng r={seed}; for( size_t j=rr_(&r,1,200); f && j; j-- ) fputc((int)rr_(&r,32,126),f); if( !f || fclose(f) ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } }
static void *worker(void *p) {
	struct work *w=p; rng R={w->seed}, *r=&R; rng D={w->seed^(g_par? 0x5555 : 0)}; uint64_t h=1, c0=vf_checks; t_msgs=5; vf_seed_thread(w->seed); struct obj o[6]; static enum kind const heavy[]={K_CFG,K_MATH,K_LEX,K_MSG};
	if( g_par ) pthread_barrier_wait(&g_bar);
	for( size_t i=0; i<w->objs; i++ ) { enum kind k=w->only<K_COUNT? w->only : rc_(r,2,5)? heavy[rb_(r,4)] : (enum kind)rb_(r,K_COUNT); uint64_t cs=rnext(r); bool ok=mix_create(&o[i],k,cs); CHECK(ok,"thread-create","a %s could not be created",kind_name[k]); file_for(&o[i],w->id,i,cs); h=hx(h,mix_digest(&o[i])); }
	for( size_t c=0; c<w->calls; c++ ) { size_t i=rb_(r,w->objs); uint64_t s=rnext(r); if( g_par && w->delays && rc_(&D,1,6) ) { if( rc_(&D,1,8) ) usleep((useconds_t)rb_(&D,60)); else sched_yield(); }
		if( g_par ) w->tickets[c]=__atomic_fetch_add(&g_ticket,1,__ATOMIC_RELAXED); struct res z=mix_step(&o[i],s); h=hx(hx(h,z.ok),z.h); if( rc_(r,1,3) ) h=hx(h,mix_digest(&o[i])); }
	for( size_t i=0; i<w->objs; i++ ) { h=hx(h,mix_digest(&o[i])); mix_destroy(&o[i],false); if( o[i].file[0] ) unlink(o[i].file); }
	w->result=hx(h,t_msgs); w->checks=vf_checks-c0; return NULL;
}
static int by_ticket(void const *a, void const *b) { uint64_t x=((uint64_t*)a)[0], y=((uint64_t*)b)[0]; return x<y? -1 : x>y; }
static void here(void) { if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } }
static void schedule(struct work *w, size_t n) { static uint64_t ord[MAXT*400][2]; size_t k=0, sw=0; for( size_t t=0; t<n; t++ ) for( size_t c=0; c<w[t].calls; c++ ) { ord[k][0]=w[t].tickets[c]; ord[k][1]=t; k++; } qsort(ord,k,sizeof ord[0],by_ticket); for( size_t i=0; i<k; i++ ) { vf_mix(ord[i][1]); if( i && ord[i][1]!=ord[i-1][1] ) sw++; } COUNT_N("switch",sw); COUNT_N("call",k); if( sw>=n ) COUNT("overlapped"); if( !sw ) vf_trivial(); }
static void own(uint64_t idx) {
	here(); size_t n=vf_range(2,MAXT); struct work w[MAXT], s[MAXT]; static uint64_t tk[MAXT][400]; pthread_t t[MAXT]; enum kind only=vf_chance(1,2)? (enum kind)(idx%K_COUNT) : K_COUNT; bool d=vf_chance(2,3);
	for( size_t i=0; i<n; i++ ) { w[i]=(struct work){vf_rand(),0,0,i,vf_range(30,200),vf_range(1,6),d,tk[i],only}; s[i]=w[i]; }
	if( only<K_COUNT ) OP("%zu threads on objects of kind %s",n,kind_name[only]); else OP("%zu threads on mixed objects",n); for( size_t i=0; i<n; i++ ) OP("thread %zu: %zu object(s), %zu calls",i,w[i].objs,w[i].calls);
	g_par=true; g_ticket=0; pthread_barrier_init(&g_bar,NULL,(unsigned)n); for( size_t i=0; i<n; i++ ) if( pthread_create(&t[i],NULL,worker,&w[i]) ) { fprintf(stderr,"VF-HARNESS thread\n"); _exit(3); }
	for( size_t i=0; i<n; i++ ) pthread_join(t[i],NULL); pthread_barrier_destroy(&g_bar); g_par=false;
	for( size_t i=0; i<n; i++ ) { worker(&s[i]); CHECK(s[i].result==w[i].result,"thread-result","thread %zu of %zu got other results or contents than the same %zu calls give alone",i,n,w[i].calls); vf_checks+=w[i].checks; COUNT("thread"); }
	schedule(w,n); if( only<K_COUNT ) COUNT("one-kind"); else COUNT("mixed-kinds"); COUNT_N("thread-call",n);
#ifndef VF_NOLEDGER
	vf_leak_check("thread-leak");
#endif
}
/* ---- the same objects queried by all threads ---- */
static struct obj shared[8]; static size_t nshared;
static uint64_t query(struct obj const *o, rng *r) {
	uint64_t h=mix_digest(o); uint8_t v[64]; memset(v,(int)rb_(r,6),sizeof v); v[0]=(uint8_t)rb_(r,4); char t[600];
	switch( o->k ) {
		case K_MAP: { char k[12]; size_t kl=(size_t)sprintf(k,"%s%zu",(char const*[]){"a","bb","key"}[rb_(r,3)],rb_(r,12)), l=0; h=hx(h,harbol_map_has_key(&o->u.map[0],k,kl)); h=hx(h,harbol_map_idx_val(o->u.map,v,8)); h=hx(h,harbol_map_key_val(o->u.map,v,8,&l)!=NULL); break; }
		case K_ARRAY: h=hx(hx(h,harbol_array_index_of(o->u.arr,v,o->ds,0)),harbol_array_item_count(o->u.arr,v,o->ds)); h=hx(h,harbol_array_peek_ex(o->u.arr,v,o->ds)); break;
		case K_DEQUE: h=hx(h,harbol_deque_get_back(o->u.dq)!=NULL); break;
		case K_STRING: h=hx(hx(h,harbol_string_find_char(o->u.str,'b')),harbol_string_count_char(o->u.str,'a')); h=hx(h,harbol_string_count_cstr(o->u.str,"a")); h=hx(h,harbol_string_cmpstr(o->u.str,&o->aux_str)==0); if( o->u.str->cstr ) h=hx(h,harbol_string_is_palindrome(o->u.str)); break;
		case K_TUPLE: { uint8_t b[400]; if( harbol_tuple_to_struct(o->u.tup,b) ) h=hb(h,b,harbol_tuple_len(o->u.tup)); break; }
		case K_TREE: h=hx(h,harbol_tree_get_node_by_val(o->u.tree,v,4)!=NULL); break;
		case K_CFG: { cfg_path(o->cfg,r,t); h=hx(h,(uint64_t)harbol_cfg_get_type(o->cfg,t)); floatmax_t *f=harbol_cfg_get_float(o->cfg,t); if( f ) h=hb(h,f,10); size_t l=0; char *c=harbol_cfg_get_cstr(o->cfg,t,&l); if( c ) h=hb(h,c,l); struct HarbolString s=harbol_cfg_to_str(o->cfg); h=hs(h,&s); harbol_string_clear(&s); floatmax_t m=harbol_cfg_calc_math(o->cfg,t,harbol_math_default_var_func,NULL,0); if( m==m ) h=hb(h,&m,10); break; }
		default: break;
	}
	return h;
}
static void *reader(void *p) { struct work *w=p; rng R={w->seed}, *r=&R; uint64_t h=1, c0=vf_checks; t_msgs=5; if( g_par ) pthread_barrier_wait(&g_bar); for( size_t c=0; c<w->calls; c++ ) { if( g_par ) w->tickets[c]=__atomic_fetch_add(&g_ticket,1,__ATOMIC_RELAXED); h=hx(h,query(&shared[rb_(r,nshared)],r)); } w->result=h; w->checks=vf_checks-c0; return NULL; }
static void readers(uint64_t idx) {
	(void)idx; here(); static enum kind const ks[]={K_MAP,K_ARRAY,K_DEQUE,K_STRING,K_BYTES,K_TUPLE,K_TREE,K_VARIANT,K_CFG,K_CFG}; nshared=vf_range(1,8); for( size_t i=0; i<nshared; i++ ) { CHECK(mix_create(&shared[i],ks[vf_below(10)],vf_rand()),"thread-create","not created"); for( size_t j=vf_below(20); j; j-- ) mix_step(&shared[i],vf_rand()); OP("shared %s",kind_name[shared[i].k]); }
	size_t n=vf_range(2,MAXT); struct work w[MAXT], s[MAXT]; static uint64_t tk[MAXT][400]; pthread_t t[MAXT]; for( size_t i=0; i<n; i++ ) { w[i]=(struct work){vf_rand(),0,0,i,vf_range(10,60),0,false,tk[i],K_COUNT}; s[i]=w[i]; }
	g_par=true; g_ticket=0; pthread_barrier_init(&g_bar,NULL,(unsigned)n); for( size_t i=0; i<n; i++ ) if( pthread_create(&t[i],NULL,reader,&w[i]) ) { fprintf(stderr,"VF-HARNESS thread\n"); _exit(3); }
	for( size_t i=0; i<n; i++ ) pthread_join(t[i],NULL); pthread_barrier_destroy(&g_bar); g_par=false; OP("%zu threads query them",n);
	for( size_t i=0; i<n; i++ ) { reader(&s[i]); CHECK(s[i].result==w[i].result,"thread-result","thread %zu querying shared objects got other answers than alone",i); vf_checks+=w[i].checks; COUNT("reader"); }
	schedule(w,n); for( size_t i=0; i<nshared; i++ ) mix_destroy(&shared[i],false);
#ifndef VF_NOLEDGER
	vf_leak_check("thread-leak");
#endif
}
/* ---- free functions, files and plugins: every thread works on data of its own ---- */
static bool m_ch(int32_t c) { return c=='a' || c==' ' || c=='\n' || c=='7'; }
static void m_dirfn(char const *path, char const *name, void *ud) { (void)path; uint64_t *h=ud; uint64_t x=7; x=hb(x,name,strlen(name)); *h+=x; }
static void m_plfn(struct HarbolPlugin *p, void *ud, bool re) { (void)p; uint64_t *h=ud; *h=hx(*h,(uint64_t)re+3); }
static uint64_t m_num(rng *r, char *t, struct HarbolString *b) {
	static char const al[]="0123456789abcdefABCDEFxXoObBuUlLeEpP.'_+-"; size_t n=rr_(r,1,12), w=0; if( rc_(r,1,2) ) { t[w++]='0'; t[w++]="xXbBoO"[rb_(r,6)]; } while( n-- ) t[w++]= rc_(r,3,4)? al[rb_(r,10)] : al[rb_(r,sizeof al-1)]; t[w]=0;
	char const *e=t; bool fl=false; uint64_t k=rb_(r,10), h=k; enum HarbolLexErrType z=HarbolLexNoErr; switch( k ) { case 0: z=lex_c_style_hex(t,&e,b,&fl); break; case 1: z=lex_go_style_hex(t,&e,b,&fl); break; case 2: z=lex_c_style_octal(t,&e,b,&fl); break; case 3: z=lex_go_style_octal(t,&e,b); break; case 4: z=lex_c_style_binary(t,&e,b); break; case 5: z=lex_go_style_binary(t,&e,b); break; case 6: z=lex_c_style_decimal(t,&e,b,&fl); break; case 7: z=lex_go_style_decimal(t,&e,b,&fl); break; case 8: z=lex_c_style_number(t,&e,b,&fl); break; default: z=lex_go_style_number(t,&e,b,&fl); }
	h=hx(h,(uint64_t)z); char const *et=lex_get_err(z); h=hb(h,et,strlen(et)); if( z==HarbolLexNoErr ) { h=hx(hx(h,(uint64_t)(e-t)),fl); h=hs(h,b); if( b->len ) { bool go=k&1 || k==9; h=hx(h,(uint64_t)(go? lex_go_string_to_int(b,NULL) : lex_c_string_to_int(b,NULL))); h=hx(h,(uint64_t)(go? lex_go_string_to_uint(b,NULL) : lex_c_string_to_uint(b,NULL))); if( k==6 || k==7 ) { floatmax_t v=lex_string_to_float(b); h=hb(h,&v,10); } } }
	return h;
}
static uint64_t m_helpers(rng *r, char const *t, size_t w) {
	uint64_t h=3;
	/* lists of one, two and three links */
	struct { struct HarbolTriLink l; size_t id; } nd[12], *n1[12]; memset(nd,0,sizeof nd); void *head=NULL, *tail=NULL; size_t k=rr_(r,1,12), bi=rb_(r,2); for( size_t i=0; i<k; i++ ) { nd[i].id=i; n1[i]=&nd[i]; harbol_trilink_set_c(&nd[i],i? (void*)n1[i-1] : NULL); }
	for( size_t i=0; i<k; i++ ) switch( i<2? i%2 : rb_(r,3) ) { case 0: if( bi ) harbol_bilink_add_to_head(&head,&nd[i],&tail); else harbol_link_add_to_head(&head,&nd[i],&tail); break; case 1: if( bi ) harbol_bilink_add_to_tail(&head,&nd[i],&tail); else harbol_link_add_to_tail(&head,&nd[i],&tail); break; default: if( bi ) harbol_bilink_add_after(head,&nd[i]); else harbol_link_add_after(head,&nd[i]); if( head==tail ) tail=&nd[i]; }
	if( bi && k>2 ) { void *x=harbol_link_get_a(head); harbol_bilink_remove(&head,x,&tail); }
	for( void *x=head; x; x=harbol_link_get_a(x) ) { h=hx(h,(uint64_t)(n1[0]-n1[0])+((size_t)((char*)x-(char*)nd))); void *c=harbol_trilink_get_c(x); h=hx(h,c? (uint64_t)((char*)c-(char*)nd) : 99); if( bi ) { void *b=harbol_bilink_get_b(x); h=hx(h,b? (uint64_t)((char*)b-(char*)nd) : 98); h=hx(h,*harbol_bilink_get_b_ref(x)==b); } h=hx(h,*harbol_link_get_a_ref(x)==harbol_link_get_a(x)); h=hx(h,*harbol_trilink_get_c_ref(x)==c); }
	harbol_bilink_set_b(&nd[0],&nd[k-1]); harbol_link_set_a(&nd[0],NULL); h=hx(h,harbol_bilink_get_b(&nd[0])==(void*)&nd[k-1]);
	/* numbers */
	size_t base=rr_(r,3,40), tab[MAX_LOG_TABLE_SIZE], *pw=NULL; if( make_int_log_tables(base,&tab,&pw) ) for( int g=0; g<4; g++ ) { size_t x=1+(rnext(r)>>rr_(r,2,60)); h=hx(hx(h,base_N_digits(x,&tab,pw)),base_N_num_chars_uint(x,&tab,pw)); h=hx(h,base_N_num_chars_int(rc_(r,1,2)? (ssize_t)x : -(ssize_t)x,&tab,pw)); } free(pw);
	for( int g=0; g<3; g++ ) { size_t x=rnext(r)>>rb_(r,64); h=hx(hx(hx(h,base_2_digits(x)),base_2_num_chars(x)),base_10_num_chars_uint(x)); h=hx(h,base_10_num_chars_int((ssize_t)x)); h=hx(h,is_uint_in_bounds(x,900,3)); h=hx(h,is_int_in_bounds((ssize_t)x,900,-3)); size_t al=(size_t)1<<rb_(r,6); x>>=8; h=hx(hx(h,harbol_align_size(x,al)),harbol_pad_size(x,al)); h=hx(h,is_ptr_aligned((void*)(uintptr_t)(x|1),8)); }
	/* memory */
	uint8_t a[500], *e=harbol_mempcpy(a,t,w); h=hx(h,(uint64_t)(e-a)); e=harbol_memccpy(a,t,'7',w); h=hx(h,e? (uint64_t)(e-a) : 1000); h=hb(h,a,e? (size_t)(e-a) : w); uint8_t *d=w? dup_data(t,w) : NULL; if( d ) { h=hb(h,d,w); size_t l=w; uint8_t *d2=harbol_resize_string(d,1,&l,rr_(r,1,90)); if( d2 ) { h=hb(h,d2,l+1); d=d2; size_t q=l; if( array_shift_up(d,&l,rb_(r,l),1,rb_(r,9)) ) h=hb(h,d,q); uint8_t *d3=harbol_recalloc(d,rr_(r,1,70),1,q); if( d3 ) { h=hx(h,d3[0]); d=d3; } } } free(d); h=hx(h,ptr_hash((void*)(uintptr_t)rb_(r,9999),7));
	/* scanning */
	h=hx(h,(uint64_t)(skip_string_literal(t,'\\')-t)); h=hx(h,(uint64_t)(skip_multiquote_string(t,"\"",1,'\\')-t)); bool ok=false; char num[24]; snprintf(num,sizeof num,"%s%zu",rc_(r,1,2)? "-" : "",rb_(r,1u<<30)); int32_t ru[24]={0}, nu[11]={0}; for( size_t i=0; num[i]; i++ ) ru[i]=num[i]; for( int i=0; i<10; i++ ) nu[i]='0'+i; h=hx(h,(uint64_t)convert_runes_to_base_int(ru,10,nu,&ok)); h=hx(h,ok); int32_t const *pu=ru[0]=='-'? ru+1 : ru; h=hx(h,convert_runes_to_base_uint(pu,10,nu,&ok)); h=hx(h,ok); h=hx(h,(uint64_t)convert_cstr_to_base_int(num,10,"0123456789",&ok)); h=hx(h,ok);
	return h;
}
static uint64_t misc_step(rng *r, size_t id, int par) {
	uint64_t h=1; char t[400]; size_t n=rb_(r,60), w=0; static char const al[]="ab7 \n\t/*\"'\\xnu{}=|"; for( size_t i=0; i<n; i++ ) { if( rc_(r,1,8) ) { char u[5]; size_t c=write_utf8_cstr(u,4,(int32_t)rr_(r,0xa0,0xd7ff)); memcpy(t+w,u,c); w+=c; } else t[w++]=al[rb_(r,sizeof al-1)]; } t[w]=0; struct HarbolString b={0};
	switch( rb_(r,24) ) {
	case 0: case 1: case 2: h=m_num(r,t,&b); break;
	case 3: { size_t k=0; int32_t *q=utf8_cstr_to_rune(t,w,&k); if( q ) { h=hb(h,q,k*sizeof *q); size_t l=0; char *c=rune_to_utf8_cstr(q,&l); if( c ) h=hb(h,c,l); free(c); h=hx(h,find_rune_in_runes(q,'7')); } free(q); break; }
	case 4: { size_t i=0; for( int g=0; g<100 && i<w; g++ ) { size_t p=i; h=hx(h,(uint64_t)utf8_to_rune_iter(t,w,&i)); if( i<=p ) break; } h=hx(h,get_str_rune_len(t)); break; }
	case 5: { uint32_t l=0; char const *e=skip_chars(t,m_ch,&l); h=hx(hx(h,(uint64_t)(e-t)),l); e=skip_single_line_comment(t,&l); h=hx(hx(h,(uint64_t)(e-t)),l); e=skip_multi_line_comment(t,"*/",2,&l); h=hx(hx(h,(uint64_t)(e-t)),l); e=skip_chars_until_newline(t,m_ch); h=hx(h,(uint64_t)(e-t)); break; }
	case 6: { uint32_t l=0; char const *e=t; bool z=rc_(r,1,2)? lex_single_line_comment(t,&e,&b,&l) : lex_multi_line_comment(t,&e,"*/",2,&b,&l); h=hx(hx(h,z),l); h=hs(h,&b); break; }
	case 7: { char y[460]; snprintf(y,sizeof y,"\"%s\"",t); char const *e=y; enum HarbolLexErrType z=rc_(r,1,2)? lex_c_style_str(y,&e,&b) : lex_go_style_str(y,&e,&b); h=hx(h,(uint64_t)z); if( z==HarbolLexNoErr ) h=hs(hx(h,(uint64_t)(e-y)),&b); break; }
	case 8: { char const *e=t; bool z=rc_(r,1,2)? lex_until_false(t,&e,&b,m_ch) : lex_until_false_utf8(t,&e,&b,m_ch); h=hx(h,z); h=hs(h,&b); break; }
	case 9: { bool ok=false; char const *e; char d[24]; snprintf(d,sizeof d,"%zu",rb_(r,1u<<30)); (void)e; h=hx(h,(uint64_t)convert_cstr_to_base_int(d,10,"0123456789",&ok)); h=hx(hx(h,ok),(uint64_t)convert_cstr_to_base_uint(d,8,"01234567",&ok)); h=hx(h,ok); break; }
	case 10: { size_t base=rr_(r,3,40), tab[MAX_LOG_TABLE_SIZE], *pw=NULL; size_t k=make_int_log_tables(base,&tab,&pw); if( k ) for( int g=0; g<6; g++ ) { size_t x=1+(rnext(r)>>rb_(r,60)); h=hx(hx(h,int_log(x,&tab,pw)),base_10_digits(x)); h=hx(hx(h,int_log10(x)),int_log2(x)); } free(pw); break; }
	case 11: { char *g=sprintf_alloc("%zu:%s:%d",id,t,(int)rb_(r,1000)); if( g ) h=hb(h,g,strlen(g)); free(g); g=dup_cstr(w,t); if( g ) h=hb(h,g,w); free(g); break; }
	case 12: { size_t es[3]={rr_(r,1,9),rr_(r,1,9),rr_(r,1,9)}, k=rr_(r,1,30), m=rr_(r,1,60); void *p[3]={0}; if( harbol_multi_calloc(k,3,&p[0],es[0],&p[1],es[1],&p[2],es[2]) ) { for( int i=0; i<3; i++ ) memset(p[i],(int)rb_(r,256),k*es[i]); if( harbol_multi_recalloc(m,k,3,&p[0],es[0],&p[1],es[1],&p[2],es[2]) ) { for( int i=0; i<3; i++ ) h=hb(h,p[i],m*es[i]); k=m; } size_t len=k; if( multi_array_shift_up(&len,rb_(r,k),rr_(r,1,4),3,p[0],es[0],p[1],es[1],p[2],es[2]) ) for( int i=0; i<3; i++ ) h=hb(h,p[i],len*es[i]); } harbol_multi_cleanup(3,&p[0],&p[1],&p[2]); break; }
	case 13: h=hx(hx(h,array_hash((uint8_t const*)t,w,rb_(r,9))),int_hash(rnext(r),3)); h=hx(h,cstr_switch(t,"a","b","",NULL)); h=hx(h,float_hash((double)rb_(r,1000)/7,1)); for( size_t i=0; i<w; i++ ) t[i]&=0x7f; h=hx(h,string_hash(t,5)); break;
	case 14: { char fn[40]; snprintf(fn,sizeof fn,"m%d_%zu",par,id); FILE *f=fopen(fn,"wb+"); if( !f || fwrite(t,1,w,f)!=w ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } fflush(f); h=hx(h,(uint64_t)get_file_size(f)); size_t k=0; rewind(f); int32_t *q=w? runes_from_stream(f,&k) : NULL; if( q ) h=hb(h,q,k*sizeof *q); free(q); fclose(f); k=0; char *g=make_buffer_from_text(fn,&k); if( g ) h=hb(h,g,k); free(g); uint8_t *u=make_buffer_from_binary(fn,&k); if( u ) h=hb(h,u,k); free(u); unlink(fn); break; }
	case 15: { size_t cnt=rb_(r,4); uint32_t l=(uint32_t)rb_(r,900), c=(uint32_t)rb_(r,90); harbol_write_msg(&cnt,stdout,t,"Error",COLOR_RED,&l,&c,"%s|%zu",t,n); h=hx(h,cnt); break; }
	case 16: { struct HarbolTokenSpan x={(uint32_t)rb_(r,90),(uint32_t)rb_(r,90),(uint32_t)rb_(r,90),(uint32_t)rb_(r,90)}, y={(uint32_t)rb_(r,90),(uint32_t)rb_(r,90),(uint32_t)rb_(r,90),(uint32_t)rb_(r,90)}, z=harbol_token_span_merge(x,y); h=hb(h,&z,sizeof z); break; }
	case 17: case 18: { char fn[48], d[48], in[64]; snprintf(d,sizeof d,"d%d_%zu",par,id); if( mkdir(d,0777) ) { fprintf(stderr,"VF-HARNESS scratch\n"); _exit(3); } size_t k=rr_(r,1,5); for( size_t i=0; i<k; i++ ) { snprintf(in,sizeof in,"%s/f%zu.%s",d,i,rc_(r,2,3)? "so" : "txt"); FILE *f=fopen(in,"w"); if( f ) fclose(f); } uint64_t sum=0; bool z=harbol_plugin_dir_open(d,m_dirfn,&sum,NULL); h=hx(hx(h,z),sum); (void)fn; for( size_t i=0; i<k; i++ ) for( int q=0; q<2; q++ ) { snprintf(in,sizeof in,"%s/f%zu.%s",d,i,q? "so" : "txt"); unlink(in); } rmdir(d); break; }
	case 19: { char fn[48]; snprintf(fn,sizeof fn,"./pl%zu.so",id%3); struct HarbolPlugin p={0}; uint64_t ev=1; bool z=harbol_plugin_load(&p,fn,m_plfn,&ev); h=hx(h,z); if( z ) { int (*fnp)(void)=(int(*)(void))(uintptr_t)harbol_plugin_get_obj(&p,"thread_id"); h=hx(h,fnp? (uint64_t)fnp() : 77); h=hx(h,harbol_plugin_reload(&p,m_plfn,m_plfn,&ev)); h=hx(h,harbol_plugin_changed(&p)); } char const *e=harbol_plugin_get_err(&p); h=hb(h,e,strlen(e)); harbol_plugin_clear(&p,m_plfn,&ev); h=hx(h,ev); break; }
	case 22: case 23: h=m_helpers(r,t,w); break;
	case 20: { char inc[40], fn[40]; snprintf(inc,sizeof inc,"i%d_%zu.cfg",par,id); snprintf(fn,sizeof fn,"c%d_%zu.cfg",par,id); FILE *f=fopen(inc,"w"); if( !f ) break; fprintf(f,"'x': %zu, 's': { 'y': iota, 'z': iota }\n",rb_(r,900)); fclose(f); f=fopen(fn,"w"); if( !f ) break; fprintf(f,"'a': IOTA, 'b': iota, '<enum>k': -1'0, '<ENUM>l': { 'me': <FILE> }, '<include>': '%s', 'c': c[1,2,0xff,4], 'v': v[1.5 -2], 'n': null, 't': true, 'm': \"<math [2] + %zu>\", 'bad' ?\n",inc,rb_(r,99)); fclose(f); struct HarbolMap *m=harbol_cfg_parse_file(fn); if( m ) { struct HarbolString z=harbol_cfg_to_str(m); h=hs(h,&z); harbol_string_clear(&z); harbol_cfg_free(&m); } unlink(fn); unlink(inc); break; }
	default: { for( int i=0; i<5; i++ ) h=hx(h,(uint64_t)bytes_bitmask((size_t)i)); h=hx(h,next_pow_of_2(rb_(r,100000))); h=hx(h,bitwise_ceil(rb_(r,100000))); lex_fix_newlines(&b,true); if( harbol_string_copy_cstr(&b,w? t : "q") ) { lex_fix_newlines(&b,true); h=hs(h,&b); } break; }
	}
	harbol_string_clear(&b); return h;
}
static void *misc_worker(void *p) { struct work *w=p; rng R={w->seed}, *r=&R; rng D={w->seed^0x77}; uint64_t h=1; t_msgs=5; if( g_par ) pthread_barrier_wait(&g_bar); for( size_t c=0; c<w->calls; c++ ) { if( g_par && w->delays && rc_(&D,1,6) ) sched_yield(); if( g_par ) w->tickets[c]=__atomic_fetch_add(&g_ticket,1,__ATOMIC_RELAXED); rng q={rnext(r)}; h=hx(h,misc_step(&q,w->id,0)); } w->result=hx(h,t_msgs); return NULL; }
static void misc(uint64_t idx) {
	(void)idx; here(); static bool built; if( !built ) { built=true; FILE *f=fopen("pl.c","w"); if( !f ) exit(3); fputs("int thread_id(void) { return ID; }\n",f); fclose(f); for( int i=0; i<3; i++ ) { char c[200]; snprintf(c,sizeof c,"gcc -shared -fPIC -DID=%d -o pl%d.so pl.c >pl.log 2>&1",i+40,i); if( system(c) ) { fprintf(stderr,"VF-HARNESS plugin\n"); _exit(3); } } }
	size_t n=vf_range(2,MAXT); struct work w[MAXT], s[MAXT]; static uint64_t tk[MAXT][400]; pthread_t t[MAXT]; bool d=vf_chance(2,3); for( size_t i=0; i<n; i++ ) { w[i]=(struct work){vf_rand(),0,0,i,vf_range(10,80),0,d,tk[i],K_COUNT}; s[i]=w[i]; } OP("%zu threads call free functions",n); for( size_t i=0; i<n; i++ ) OP("thread %zu: %zu calls",i,w[i].calls);
	g_par=true; g_ticket=0; pthread_barrier_init(&g_bar,NULL,(unsigned)n); for( size_t i=0; i<n; i++ ) if( pthread_create(&t[i],NULL,misc_worker,&w[i]) ) { fprintf(stderr,"VF-HARNESS thread\n"); _exit(3); }
	for( size_t i=0; i<n; i++ ) pthread_join(t[i],NULL); pthread_barrier_destroy(&g_bar); g_par=false;
	for( size_t i=0; i<n; i++ ) { misc_worker(&s[i]); CHECK(s[i].result==w[i].result,"thread-result","thread %zu of %zu got other results than the same %zu calls give alone",i,n,w[i].calls); COUNT("free-function-thread"); }
	schedule(w,n);
#ifndef VF_NOLEDGER
	vf_leak_check("thread-leak");
#endif
}
struct vf_mode const vf_modes[] = { {"own", own}, {"readers", readers}, {"misc", misc}, {0} };
struct vf_probe const vf_probes[] = { {0} };
