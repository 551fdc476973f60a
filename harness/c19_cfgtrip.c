/* C19: a tree built through the map/variant API is written as text and as a file; reading either back must give the same tree, and writing must change nothing. */
#include <ctype.h>
#include "cfgmodel.h"
static long double rfloat(void) { long double f = vf_chance(1,6)? 0.0L : vf_chance(1,3)? (long double)((int)vf_below(2000)-1000)/8 : ((long double)(int64_t)vf_rand())/(long double)(1ull<<vf_below(63)); if( vf_chance(1,30) ) f*=1e300L; if( vf_chance(1,40) ) { f*=vf_chance(1,2)? 1e2000L : 1e4900L; if( isinf(f) ) f=LDBL_MAX; COUNT("enormous-float"); } if( vf_chance(1,30) ) f*=1e-9L; return f; }
static struct HarbolMap *build(struct node *x, int depth) {
	struct HarbolMap *m=harbol_map_new(vf_range(1,16)); char k[3000]; size_t n= depth==0? vf_below(7) : vf_below(5); if( !m ) _exit(3);
	for( size_t i=0; i<n; i++ ) {
		size_t l; do l=rtext(k,vf_chance(1,8)? 400 : 60); while( l==0 || m_find(x,k,l) ); struct HarbolVariant v; bool ok; struct node *c;
		switch( vf_below(depth<5? 10 : 8) ) {
			case 0: c=m_new(HarbolCfgType_Null,k,l); v=harbol_variant_make(&(char){0},1,HarbolCfgType_Null,&ok); break;
			case 1: case 2: { char b[1200]; size_t bl=rtext(b,vf_chance(1,6)? 1000 : 40); c=m_new(HarbolCfgType_String,k,l); m_setstr(c,b,bl); struct HarbolString *s=harbol_string_new(bl? b : NULL); v=harbol_variant_make(&s,sizeof s,HarbolCfgType_String,&ok); COUNT("string"); if( !bl ) COUNT("empty-string"); if( strpbrk(b,"\"\\\n\t") ) COUNT("needs-escape"); break; }
			case 3: c=m_new(HarbolCfgType_Float,k,l); c->f=rfloat(); v=harbol_variant_make(&c->f,sizeof(floatmax_t),HarbolCfgType_Float,&ok); COUNT("float"); break;
			case 4: c=m_new(HarbolCfgType_Int,k,l); c->i=vf_chance(1,6)? (intmax_t[]){INTMAX_MAX,INTMAX_MIN,0,-1}[vf_below(4)] : (intmax_t)vf_rand()>>vf_below(63); v=harbol_variant_make(&c->i,sizeof c->i,HarbolCfgType_Int,&ok); COUNT("int"); break;
			case 5: c=m_new(HarbolCfgType_Bool,k,l); c->b=vf_chance(1,2); v=harbol_variant_make(&c->b,1,HarbolCfgType_Bool,&ok); break;
			case 6: c=m_new(HarbolCfgType_Color,k,l); vf_bytes(c->c,4); if( vf_chance(1,4) ) memset(c->c,vf_chance(1,2)?0:255,4); v=harbol_variant_make(c->c,4,HarbolCfgType_Color,&ok); COUNT("color"); break;
			case 7: c=m_new(HarbolCfgType_Vec4D,k,l); for( int j=0; j<4; j++ ) c->v[j]=(float)rfloat(); for( int j=0; j<4; j++ ) if( isinf(c->v[j]) ) c->v[j]=FLT_MAX; v=harbol_variant_make(c->v,16,HarbolCfgType_Vec4D,&ok); COUNT("vector"); break;
			default: { c=m_new(HarbolCfgType_Map,k,l); struct HarbolMap *sub=build(c,depth+1); v=harbol_variant_make(&sub,sizeof sub,HarbolCfgType_Map,&ok); COUNT("section"); if( !c->n ) COUNT("empty-section"); }
		}
		if( !harbol_map_insert(m,k,l+1,&v,sizeof v) ) { fprintf(stderr,"VF-HARNESS map insertion\n"); _exit(3); } m_add(x,c); vf_mix_bytes(k,l); vf_mix((uint64_t)c->type); vf_mix((uint64_t)c->i);
	}
	return m;
}
static struct tol const T={0.5000001e-6L,8*LDBL_EPSILON,4*FLT_EPSILON}, F={0.5000001e-6L,4*FLT_EPSILON,4*FLT_EPSILON};
static void trip(uint64_t idx) {
	(void)idx; (void)F; struct node *x=m_new(HarbolCfgType_Map,"",0); struct HarbolMap *m=build(x,0); size_t before=vf_ledger_live(); msg_n=0;
	struct HarbolString a=harbol_cfg_to_str(m); OP("tree of %zu nodes as text: %s",m_count(x),vf_quote(a.cstr? a.cstr : "",a.len)); cmp_tree(m,x,NULL,"cfg-changed",""); CHECK(a.len==0 || strlen(a.cstr)==a.len,"cfg-text","text of length %zu has %zu characters",a.len,a.cstr? strlen(a.cstr) : 0);
	struct HarbolString b=harbol_cfg_to_str(m); CHECK(a.len==b.len && (a.len==0 || !memcmp(a.cstr,b.cstr,a.len)),"cfg-text-differs","serialising again gave another text"); harbol_string_clear(&b);
	char *y=vf_exact_str(a.cstr? a.cstr : "",a.len); struct HarbolMap *r=harbol_cfg_parse_cstr(y); CHECK(r && msg_n==0,"cfg-reread","own text not accepted: %s",msg_text); cmp_tree(r,x,&T,"cfg-reread",""); vf_xfree(y);
	struct HarbolString c=harbol_cfg_to_str(r); CHECK(a.len==c.len && (a.len==0 || !memcmp(a.cstr,c.cstr,a.len)),"cfg-restext","the text of the tree read back is another"); harbol_string_clear(&c); harbol_cfg_free(&r); harbol_string_clear(&a); COUNT("text-roundtrip");
	CHECK(vf_ledger_live()==before,"cfg-leak","writing and reading back left %zu blocks",vf_ledger_live()-before);
	if( vf_chance(1,3) ) {
		if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); }
		int how=(int)vf_below(3); if( how ) { FILE *f=fopen("o.cfg","wb"); fputs(how==1? "old contents {{{ \"\n\n\n\n\n\n" : "# kept\n\"an older entry of the file\": 5\n",f); fclose(f); } bool over = how==1 || (how==0 && vf_chance(1,2)); OP("build_file over=%d how=%d",over,how);
		struct node *old=NULL; if( how==2 ) { if( m_find(x,"an older entry of the file",26) ) goto done; old=m_new(HarbolCfgType_Int,"an older entry of the file",26); old->i=5; x->kid=vf_xrealloc(x->kid,(x->n+1)*sizeof *x->kid); memmove(x->kid+1,x->kid,x->n*sizeof *x->kid); x->kid[0]=old; x->n++; old->up=x; COUNT("appended-file"); }
		bool ok=harbol_cfg_build_file(m,"o.cfg",over); CHECK(ok,"cfg-file","build_file failed"); r=harbol_cfg_parse_file("o.cfg"); CHECK(r && msg_n==0,"cfg-file-reread","own file not accepted: %s",msg_text); cmp_tree(r,x,&T,"cfg-file-reread",""); harbol_cfg_free(&r); COUNT("file-roundtrip"); if( x->n==0 ) COUNT("empty-file");
		if( old ) { memmove(x->kid,x->kid+1,--x->n*sizeof *x->kid); m_free(old); } cmp_tree(m,x,NULL,"cfg-changed","");
		done: unlink("o.cfg"); if( vf_chance(1,10) ) { bool bad=harbol_cfg_build_file(m,"no/such/dir/o.cfg",true); CHECK(!bad,"cfg-file","success without a file"); COUNT("file-refused"); }
		if( x->n && vf_chance(1,6) && access("/dev/full",W_OK)==0 ) { CHECK(!harbol_cfg_build_file(m,"/dev/full",true),"cfg-file","success on a full device"); }
		CHECK(vf_ledger_live()==before,"cfg-leak","writing and reading a file left %zu blocks",vf_ledger_live()-before);
	}
	harbol_cfg_free(&m); vf_leak_check("cfg-leak"); if( x->n==0 ) { vf_trivial(); COUNT("empty-tree"); } m_free(x);
}
/* wide sections, deep nesting and texts longer than 16 bits can count */
static void big(uint64_t idx) {
	(void)idx; struct node *x=m_new(HarbolCfgType_Map,"",0), *p=x; struct HarbolMap *m=harbol_map_new(8), *pm=m; char k[60]; bool ok; int what=(int)vf_below(3); size_t depth= what==0? vf_range(50,450) : vf_below(3), wide= what==1? vf_range(400,1500) : vf_range(1,20), longl= what==2? vf_range(65000,140000) : vf_range(1,300); vf_set_cpu_limit(60);
	#if defined __has_feature
	#if __has_feature(address_sanitizer) /* the writer grows its text one byte at a time; the sanitizer's allocator moves it every time */
	longl = longl>9000? 9000 : longl; depth = depth>60? 60 : depth; wide = wide>300? 300 : wide;
	#endif
	#endif
	 struct HarbolVariant v;
	#define PUT(c) do { if( !harbol_map_insert(pm,(c)->key,(c)->klen+1,&v,sizeof v) ) { fprintf(stderr,"VF-HARNESS map insertion\n"); _exit(3); } m_add(p,c); } while( 0 )
	for( size_t i=0; i<depth; i++ ) { struct node *c=m_new(HarbolCfgType_Int,"n",1); c->i=(intmax_t)vf_rand(); v=harbol_variant_make(&c->i,sizeof c->i,HarbolCfgType_Int,&ok); PUT(c); struct HarbolMap *sub=harbol_map_new(4); c=m_new(HarbolCfgType_Map,"s\"\\ection",9); v=harbol_variant_make(&sub,sizeof sub,HarbolCfgType_Map,&ok); PUT(c); p=c; pm=sub; }
	for( size_t i=0; i<wide; i++ ) { size_t l=(size_t)snprintf(k,sizeof k,"k%zu",i); struct node *c; if( i%3 ) { c=m_new(HarbolCfgType_Int,k,l); c->i=(intmax_t)vf_rand(); v=harbol_variant_make(&c->i,sizeof c->i,HarbolCfgType_Int,&ok); } else { c=m_new(HarbolCfgType_Bool,k,l); c->b=i%2; v=harbol_variant_make(&c->b,1,HarbolCfgType_Bool,&ok); } PUT(c); }
	{ char *t=vf_xmalloc(longl+1); for( size_t i=0; i<longl; i++ ) t[i]="abc\"\\\n\t def'"[vf_below(12)]; t[longl]=0; struct node *c=m_new(HarbolCfgType_String,"long",4); m_setstr(c,t,longl); struct HarbolString *s=harbol_string_new(t); v=harbol_variant_make(&s,sizeof s,HarbolCfgType_String,&ok); PUT(c); if( vf_chance(1,2) ) { c=m_new(HarbolCfgType_Null,t,longl); v=harbol_variant_make(&(char){0},1,HarbolCfgType_Null,&ok); PUT(c); } vf_xfree(t); }
	vf_mix(depth); vf_mix(wide); vf_mix(longl); OP("%zu levels, %zu entries, %zu-byte text",depth,wide,longl); size_t before=vf_ledger_live(); msg_n=0; struct HarbolString a=harbol_cfg_to_str(m), b=harbol_cfg_to_str(m); CHECK(a.len==b.len && !memcmp(a.cstr,b.cstr,a.len),"cfg-text-differs","serialising again gave another text"); struct HarbolMap *r=harbol_cfg_parse_cstr(a.cstr); CHECK(r && !msg_n,"cfg-reread","own text not accepted: %s",msg_text); cmp_tree(r,x,&T,"cfg-reread",""); harbol_cfg_free(&r);
	if( chdir(vf_scratch()) ) { fprintf(stderr,"VF-HARNESS chdir\n"); _exit(3); } CHECK(harbol_cfg_build_file(m,"b.cfg",true),"cfg-file","build_file failed"); r=harbol_cfg_parse_file("b.cfg"); CHECK(r && !msg_n,"cfg-file-reread","own file not accepted: %s",msg_text); cmp_tree(r,x,&T,"cfg-file-reread",""); struct HarbolString c2=harbol_cfg_to_str(r); CHECK(c2.len==a.len && !memcmp(c2.cstr,a.cstr,a.len),"cfg-restext","the text of the tree read back is another"); harbol_string_clear(&c2); harbol_cfg_free(&r); unlink("b.cfg"); cmp_tree(m,x,NULL,"cfg-changed",""); harbol_string_clear(&a); harbol_string_clear(&b);
	CHECK(vf_ledger_live()==before,"cfg-leak","%zu blocks left",vf_ledger_live()-before); harbol_cfg_free(&m); vf_leak_check("cfg-leak"); m_free(x); COUNT("big"); if( depth>100 ) COUNT("deep-tree"); if( wide>=400 ) COUNT("wide-section"); if( longl>=60000 ) COUNT("long-text");
}
struct vf_mode const vf_modes[] = { {"trip", trip}, {"big", big}, {0} };
struct vf_probe const vf_probes[] = { {0} };
