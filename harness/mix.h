/* Workload library shared by C23, C24 and C29: one object of any module ("struct obj"), `mix_step` making exactly one
 * library call chosen by a seed, and `mix_digest` hashing everything a caller can observe of the object (no addresses, no
 * capacities that are not part of the interface). The same seeds give the same calls, so two objects can be run as twins. */
#include <ctype.h>
#include "vf.h"
#include <unistd.h>
#include <math.h>
#include "map/map.h"
#include "array/array.h"
#include "deque/deque.h"
#include "str/str.h"
#include "bytebuffer/bytebuffer.h"
#include "tuple/tuple.h"
#include "tree/tree.h"
#include "variant/variant.h"
#include "allocators/bistack/bistack.h"
#include "allocators/region/region.h"
#include "allocators/objpool/objpool.h"
#include "allocators/mempool/mempool.h"
#include "cfg/cfg.h"
#include "math/math_parser.h"
#include "lex/lex.h"
#include "msg_span/msg_span.h"
#include "mtwister/mtwister.h"
enum kind { K_MAP, K_ARRAY, K_DEQUE, K_STRING, K_BYTES, K_TUPLE, K_TREE, K_VARIANT, K_BISTACK, K_REGION, K_OBJPOOL, K_MEMPOOL, K_CFG, K_MSG, K_MATH, K_LEX, K_RAND, K_COUNT };
static char const *const kind_name[]={"map","array","deque","string","bytebuffer","tuple","tree","variant","bistack","region","objpool","mempool","config","diagnostics","formula","scanner","generator"};
struct res { bool ok; bool strict; uint64_t h; char const *name; };  /* strict: a refusal must leave the object as it was */
struct blk { uint8_t *p; size_t n; uint8_t fill; };
enum { MAXB=40 };
struct obj {
	enum kind k; bool heap, tainted, cleared; size_t ds; size_t sizes[6], nf; bool packed; int32_t tag;
	union { struct HarbolMap *map; struct HarbolArray *arr; struct HarbolDeque *dq; struct HarbolString *str; struct HarbolByteBuf *bb; struct HarbolTuple *tup; struct HarbolTree *tree; struct HarbolVariant *var; } u;
	struct HarbolMap vmap; struct HarbolArray varr, aux_arr; struct HarbolDeque vdq; struct HarbolString vstr, aux_str; struct HarbolByteBuf vbb, aux_bb; struct HarbolTuple vtup; struct HarbolTree *spare; struct HarbolVariant vvar;
	struct HarbolBiStack bi; struct HarbolRegion reg; struct HarbolObjPool op; struct HarbolMemPool mp; struct HarbolMap *cfg; struct HarbolMsgSpan msg; size_t cnt; struct MTRand mt;
	struct blk b[MAXB]; size_t nb, nback; /* live arena blocks; for a bistack the first nb from the front, nback from the back at the end */
	char file[24];
};
static __thread bool mix_faulting;   /* results of scanners and parsers are not looked at while allocations may fail */
/* ---- private randomness, so that a call can be repeated with the same arguments ---- */
typedef struct { uint64_t x; } rng;
static uint64_t rnext(rng *r) { uint64_t z=(r->x+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static size_t rb_(rng *r, size_t n) { return n? (size_t)(rnext(r)%n) : 0; }
static size_t rr_(rng *r, size_t a, size_t b) { return a+rb_(r,b-a+1); }
static bool rc_(rng *r, unsigned a, unsigned b) { return rb_(r,b)<a; }
static uint64_t hx(uint64_t h, uint64_t v) { h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdull; }
static uint64_t hb(uint64_t h, void const *p, size_t n) { uint8_t const *b=p; h=hx(h,n); for( size_t i=0; i<n; i++ ) h=(h^b[i])*0x100000001b3ull; return hx(h,7); }
static uint64_t hs(uint64_t h, struct HarbolString const *s) { if( !s ) return hx(h,99); return s->cstr? hb(h,s->cstr,s->len) : hx(hx(h,s->len),0); }
static size_t rtxt(rng *r, char *b, size_t max) { static char const a[]="abcABCxyz  \t09._-%\n\"\\'"; size_t n=rb_(r,max+1); for( size_t i=0; i<n; i++ ) b[i]=rc_(r,1,12)? (char)rr_(r,0x21,0x7e) : a[rb_(r,sizeof a-1)]; b[n]=0; return n; }
/* ---- generated texts ---- */
static size_t gen_expr(rng *r, char *o, int d) { size_t n=0;
	switch( d<=0? 0 : rb_(r,7) ) {
		case 1: n+=(size_t)sprintf(o+n,"("); n+=gen_expr(r,o+n,d-1); n+=(size_t)sprintf(o+n,")"); break;
		case 2: case 3: n+=gen_expr(r,o+n,d-1); n+=(size_t)sprintf(o+n," %c ","+-*/^"[rb_(r,5)]); n+=gen_expr(r,o+n,d-1); break;
		case 4: n+=(size_t)sprintf(o+n,"%s(",(char const*[]){"sin","floor","ceil","round","cos"}[rb_(r,5)]); n+=gen_expr(r,o+n,d-1); n+=(size_t)sprintf(o+n,")"); break;
		case 5: n+=(size_t)sprintf(o+n,"%s",rc_(r,1,2)? "pi" : "e"); break;
		default: n+=(size_t)sprintf(o+n,"%zu.%zu",rb_(r,40),rb_(r,100)); }
	return n; }
static size_t gen_val(rng *r, char *o, int d) { size_t n=0; char t[64], e[300];
	switch( rb_(r,d>0? 11 : 9) ) {
		case 0: n=(size_t)sprintf(o,"%zu",rb_(r,100000)); break;
		case 1: n=(size_t)sprintf(o,"-%zu.%zu",rb_(r,1000),rb_(r,1000)); break;
		case 2: n=(size_t)sprintf(o,"%s",(char const*[]){"true","false","null"}[rb_(r,3)]); break;
		case 3: n=(size_t)sprintf(o,"c[%zu, %zu, %zu, %zu]",rb_(r,256),rb_(r,256),rb_(r,256),rb_(r,256)); break;
		case 4: n=(size_t)sprintf(o,"v[%zu.5, -%zu, %zu, 0.25]",rb_(r,256),rb_(r,256),rb_(r,256)); break;
		case 5: n=(size_t)sprintf(o,"%s",rc_(r,1,2)? "iota" : "IOTA"); break;
		case 6: e[gen_expr(r,e,2)]=0; n=(size_t)sprintf(o,"\"<math %s>\"",e); break;
		case 7: case 8: { size_t k=rb_(r,rc_(r,1,6)? 60 : 12); for( size_t i=0; i<k; i++ ) t[i]=(char)rr_(r,'a','z'); t[k]=0; n=(size_t)sprintf(o,"\"%s%s\"",t,(char const*[]){"","\\n","\\x41","\\u00e9","\\\""}[rb_(r,5)]); break; }
		default: { n=(size_t)sprintf(o,"{ "); size_t k=rb_(r,4); for( size_t i=0; i<k; i++ ) { n+=(size_t)sprintf(o+n,"\"k%zu\": ",i); n+=gen_val(r,o+n,d-1); n+=(size_t)sprintf(o+n,rc_(r,1,2)? ", " : "\n"); } n+=(size_t)sprintf(o+n,"}"); } }
	return n; }
static size_t gen_doc(rng *r, char *o) { size_t n=0, k=rr_(r,1,6); if( rc_(r,1,4) ) n+=(size_t)sprintf(o,"// note\n"); for( size_t i=0; i<k; i++ ) { if( rc_(r,1,8) ) n+=(size_t)sprintf(o+n,"\"<enum>\": "); else n+=(size_t)sprintf(o+n,"'k%zu': ",i); n+=gen_val(r,o+n,3); n+=(size_t)sprintf(o+n,rc_(r,1,2)? "\n" : ",\n/* c */ "); } o[n]=0; return n; }
/* ---- digests ---- */
static uint64_t tree_digest(struct HarbolTree const *t, uint64_t h, int d) { if( !t || d>60 ) return hx(h,1); h=hb(h,t->data? (void*)t->data : "",t->data? t->len : 0); h=hx(h,t->kids.len); for( size_t i=0; i<t->kids.len; i++ ) h=tree_digest(((struct HarbolTree**)(void*)t->kids.table)[i],h,d+1); return h; }
static uint64_t cfg_digest(struct HarbolMap const *m, uint64_t h, int d) { if( !m || d>40 ) return hx(h,3); h=hx(h,m->len);
	for( size_t i=0; i<m->len; i++ ) { struct HarbolVariant const *v=(void const*)m->datum[i]; h=hb(h,m->keys[i],m->keylens[i]); CHECK(harbol_map_get_entry_index(m,m->keys[i],m->keylens[i])==i,"mix-cfg","entry %zu is not found by its key",i); h=hx(h,(uint64_t)v->tag);
		switch( v->tag ) { case HarbolCfgType_Map: h=cfg_digest(*(struct HarbolMap**)v->data,h,d+1); break; case HarbolCfgType_String: h=hs(h,*(struct HarbolString**)v->data); break; case HarbolCfgType_Float: { floatmax_t f=*(floatmax_t*)v->data; h=hb(h,&f,10); break; } case HarbolCfgType_Int: h=hb(h,v->data,sizeof(intmax_t)); break; case HarbolCfgType_Bool: h=hx(h,*(bool*)v->data); break; case HarbolCfgType_Color: h=hb(h,v->data,4); break; case HarbolCfgType_Vec4D: h=hb(h,v->data,16); break; default: h=hx(h,5); } }
	return h; }
static uint64_t blocks_digest(struct obj const *o, uint64_t h) { for( size_t i=0; i<o->nb; i++ ) { struct blk const *b=&o->b[i]; h=hx(h,b->n); h=hx(h,b->fill); for( size_t j=0; j<b->n; j++ ) CHECK(b->p[j]==b->fill,"mix-block","a live block of a %s changed at byte %zu of %zu",kind_name[o->k],j,b->n); } return h; }
static uint64_t mix_digest(struct obj const *o) {
	uint64_t h=hx(1,o->k);
	switch( o->k ) {
		case K_MAP: { struct HarbolMap const *m=o->u.map; h=hx(h,m->len); for( size_t i=0; i<m->len; i++ ) { h=hb(h,m->keys[i],m->keylens[i]); h=hb(h,m->datum[i],m->datalens[i]); CHECK(harbol_map_get_entry_index(m,m->keys[i],m->keylens[i])==i,"mix-map","entry %zu is not found by its key",i); CHECK(harbol_map_key_get(m,m->keys[i],m->keylens[i])==m->datum[i],"mix-map","entry %zu gives another value",i); } break; }
		case K_ARRAY: h=hx(h,o->u.arr->cap); h=hb(h,o->u.arr->table? (void*)o->u.arr->table : "",o->u.arr->len*o->ds); h=hb(h,o->aux_arr.table,o->aux_arr.len*o->ds); break;
		case K_DEQUE: { struct HarbolDeque const *d=o->u.dq; size_t n=harbol_deque_count(d); h=hx(h,n); h=hx(h,harbol_deque_empty(d)); size_t at=harbol_deque_head(d); for( size_t i=0; i<n; i++ ) { void *p=harbol_deque_get_data(d,at); CHECK(p,"mix-deque","node %zu of %zu has no data",i,n); h=hb(h,p,o->ds); if( i+1<n ) { size_t nx=harbol_deque_next(d,at); CHECK(harbol_deque_prev(d,nx)==at,"mix-deque","broken link at node %zu of %zu",i,n); at=nx; } } if( n ) CHECK(at==harbol_deque_tail(d),"mix-deque","walking from the head does not end at the tail"); break; }
		case K_STRING: CHECK(o->u.str->cstr==NULL || o->u.str->cstr[o->u.str->len]==0,"mix-string","no terminator at the length"); h=hs(h,o->u.str); h=hs(h,&o->aux_str); break;
		case K_BYTES: h=hb(h,o->u.bb->table? (void*)o->u.bb->table : "",o->u.bb->len); h=hb(h,o->aux_bb.table,o->aux_bb.len); break;
		case K_TUPLE: h=hx(h,harbol_tuple_len(o->u.tup)); h=hx(h,harbol_tuple_fields(o->u.tup)); h=hb(h,o->u.tup->datum? (void*)o->u.tup->datum : "",o->u.tup->datum? o->u.tup->len : 0); for( size_t i=0; i<o->nf; i++ ) { h=hx(h,harbol_tuple_field_size(o->u.tup,i)); uint8_t *p=harbol_tuple_get(o->u.tup,i); h=hx(h,p? (uint64_t)(p-o->u.tup->datum) : 77); } break;
		case K_TREE: h=tree_digest(o->u.tree,h,0); h=tree_digest(o->spare,h,0); break;
		case K_VARIANT: h=hb(h,o->u.var->data? (void*)o->u.var->data : "",o->u.var->data? o->u.var->size : 0); h=hx(h,(uint64_t)o->u.var->tag); break;
		case K_BISTACK: h=hx(hx(hx(h,o->bi.front),o->bi.back),o->bi.size); h=blocks_digest(o,h); break;
		case K_REGION: h=hx(h,harbol_region_remaining(&o->reg)); h=blocks_digest(o,h); break;
		case K_OBJPOOL: h=hx(hx(h,o->op.free_blocks),o->op.size); h=blocks_digest(o,h); break;
		case K_MEMPOOL: h=hx(h,harbol_mempool_mem_remaining(&o->mp)); h=blocks_digest(o,h); break;
		case K_CFG: h=cfg_digest(o->cfg,h,0); break;
		case K_MSG: { size_t n=harbol_msg_span_get_num_lines(&o->msg); h=hx(h,n); for( size_t i=0; i<n; i++ ) h=hs(h,harbol_msg_span_get_line(&o->msg,i)); h=hs(h,harbol_msg_span_get_code(&o->msg)); if( !o->tainted ) { h=hx(hx(h,o->msg.labels.len),o->msg.notes.len); h=hx(h,o->cnt); } break; }
		case K_RAND: h=hb(h,o->mt.mt,sizeof o->mt.mt); h=hx(h,o->mt.index); break;
		case K_MATH: case K_LEX: default: break;
	}
	return h;
}
/* ---- creation and destruction ---- */
static bool setup_aux(struct obj *o, rng *r, char const *dir) { (void)dir; uint8_t v[32]; char t[64];
	if( o->k==K_ARRAY ) { o->aux_arr=(struct HarbolArray){0}; if( !harbol_array_init(&o->aux_arr,o->ds,4) ) return false; size_t n=rb_(r,4); for( size_t i=0; i<n; i++ ) { memset(v,(int)rb_(r,5),sizeof v); harbol_array_insert(&o->aux_arr,v,o->ds); } }
	if( o->k==K_STRING ) { t[rtxt(r,t,30)]=0; if( *t && !harbol_string_copy_cstr(&o->aux_str,t) ) return false; }
	if( o->k==K_BYTES ) { size_t n=rr_(r,1,20); memset(v,(int)rb_(r,255),sizeof v); if( !harbol_bytebuffer_insert_obj(&o->aux_bb,v,n) ) return false; }
	return true; }
static bool mix_create(struct obj *o, enum kind k, uint64_t seed) {
	rng R={seed}, *r=&R; memset(o,0,sizeof *o); o->k=k; o->heap=rc_(r,1,2); bool ok=false; uint8_t v[400]; memset(v,(int)rb_(r,256),sizeof v);
	switch( k ) {
		case K_MAP: { size_t n=rb_(r,9); if( o->heap ) { o->u.map=harbol_map_new(n); ok=o->u.map!=NULL; } else { o->u.map=&o->vmap; if( rc_(r,1,2) ) ok=harbol_map_init(&o->vmap,n); else o->vmap=harbol_map_make(n,&ok); } break; }
		case K_ARRAY: { o->ds=(size_t[]){1,3,4,8,24}[rb_(r,5)]; size_t n=rr_(r,1,9); if( o->heap ) { o->u.arr=harbol_array_new(o->ds,n); ok=o->u.arr!=NULL; } else { o->u.arr=&o->varr; if( rc_(r,1,2) ) ok=harbol_array_init(&o->varr,o->ds,n); else o->varr=harbol_array_make(o->ds,n,&ok); } break; }
		case K_DEQUE: { o->ds=(size_t[]){1,4,8,24}[rb_(r,4)]; size_t n=rb_(r,6); if( o->heap ) { o->u.dq=harbol_deque_new(n); ok=o->u.dq!=NULL; } else { o->u.dq=&o->vdq; if( rc_(r,1,2) ) ok=harbol_deque_init(&o->vdq,n); else o->vdq=harbol_deque_make(n,&ok); } break; }
		case K_STRING: { char t[80]; rtxt(r,t,60); if( !*t ) strcpy(t,"x"); if( o->heap ) { o->u.str=harbol_string_new(t); ok=o->u.str!=NULL; } else { o->u.str=&o->vstr; if( rc_(r,1,2) ) ok=harbol_string_init(&o->vstr,t); else o->vstr=harbol_string_make(t,&ok); } break; }
		case K_BYTES: if( o->heap ) { o->u.bb=harbol_bytebuffer_new(); ok=o->u.bb!=NULL; } else { o->u.bb=&o->vbb; o->vbb=harbol_bytebuffer_make(); ok=true; } break;
		case K_TUPLE: { o->nf=rr_(r,1,6); o->packed=rc_(r,1,2); bool nil=rc_(r,1,12); for( size_t i=0; i<o->nf; i++ ) o->sizes[i]=nil || rc_(r,1,10)? 0 : (size_t)1<<rb_(r,7); if( o->heap ) { o->u.tup=harbol_tuple_new(o->nf,o->sizes,o->packed); ok=o->u.tup!=NULL; } else { o->u.tup=&o->vtup; if( rc_(r,1,2) ) ok=harbol_tuple_init(&o->vtup,o->nf,o->sizes,o->packed); else o->vtup=harbol_tuple_create(o->nf,o->sizes,o->packed,&ok); } break; }
		case K_TREE: o->u.tree=harbol_tree_new(v,rr_(r,1,20)); ok=o->u.tree!=NULL; break;
		case K_VARIANT: { size_t n=rr_(r,1,40); o->tag=(int32_t)rb_(r,9)-3; if( o->heap ) { o->u.var=harbol_variant_new(v,n,o->tag); ok=o->u.var!=NULL; } else { o->u.var=&o->vvar; if( rc_(r,1,2) ) ok=harbol_variant_init(&o->vvar,v,n,o->tag); else o->vvar=harbol_variant_make(v,n,o->tag,&ok); } break; }
		case K_BISTACK: { size_t n=rr_(r,16,600); if( rc_(r,1,2) ) ok=harbol_bistack_init(&o->bi,n); else o->bi=harbol_bistack_make(n,&ok); break; }
		case K_REGION: o->reg=harbol_region_make(rr_(r,16,600)); ok=o->reg.mem!=NULL; break;
		case K_OBJPOOL: { size_t s=rr_(r,1,40), n=rr_(r,1,12); if( rc_(r,1,2) ) ok=harbol_objpool_init(&o->op,s,n); else o->op=harbol_objpool_make(s,n,&ok); break; }
		case K_MEMPOOL: { size_t n=rr_(r,256,3000); if( rc_(r,1,2) ) ok=harbol_mempool_init(&o->mp,n); else o->mp=harbol_mempool_make(n,&ok); break; }
		case K_CFG: { char *t=vf_xmalloc(20000); gen_doc(r,t); o->cfg=harbol_cfg_parse_cstr(t); ok=o->cfg!=NULL; vf_xfree(t); break; }
		case K_MSG: { char t[400]; size_t n=0, l=rr_(r,1,6); for( size_t i=0; i<l; i++ ) { for( size_t j=rb_(r,20); j; j-- ) t[n++]=rc_(r,1,8)? '\t' : (char)rr_(r,33,126); t[n++]=rc_(r,1,6)? '\r' : '\n'; } t[n]=0; bool fr=rc_(r,1,3); if( rc_(r,1,2) ) ok=harbol_msg_span_init(&o->msg,t,false,fr); else o->msg=harbol_msg_span_make(t,false,fr,&ok); break; }
		case K_RAND: o->mt=MT_SeedRand(rnext(r)); ok=true; break;
		default: ok=true;
	}
	/* a failed constructor must not leave anything behind that only a clear would release: the value forms are cleared like any caller would not */
	if( ok && !setup_aux(o,r,NULL) ) { o->tainted=true; }
	return ok;
}
static void mix_destroy(struct obj *o, bool twice) {
	for( int i=0; i<1+twice; i++ ) {
		harbol_array_clear(&o->aux_arr); harbol_string_clear(&o->aux_str); harbol_bytebuffer_clear(&o->aux_bb);
		switch( o->k ) {
			case K_MAP: if( o->heap ) harbol_map_free(&o->u.map); else harbol_map_clear(&o->vmap); break;
			case K_ARRAY: if( o->heap ) harbol_array_cleanup(&o->u.arr); else harbol_array_clear(&o->varr); break;
			case K_DEQUE: if( o->heap ) harbol_deque_free(&o->u.dq); else harbol_deque_clear(&o->vdq); break;
			case K_STRING: if( o->heap ) harbol_string_free(&o->u.str); else harbol_string_clear(&o->vstr); break;
			case K_BYTES: if( o->heap ) harbol_bytebuffer_free(&o->u.bb); else harbol_bytebuffer_clear(&o->vbb); break;
			case K_TUPLE: if( o->heap ) harbol_tuple_free(&o->u.tup); else harbol_tuple_clear(&o->vtup); break;
			case K_TREE: harbol_tree_free(&o->u.tree); harbol_tree_free(&o->spare); break;
			case K_VARIANT: if( o->heap ) harbol_variant_free(&o->u.var); else harbol_variant_clear(&o->vvar); break;
			case K_BISTACK: harbol_bistack_clear(&o->bi); break;
			case K_REGION: harbol_region_clear(&o->reg); break;
			case K_OBJPOOL: harbol_objpool_clear(&o->op); break;
			case K_MEMPOOL: harbol_mempool_clear(&o->mp); break;
			case K_CFG: harbol_cfg_free(&o->cfg); break;
			case K_MSG: harbol_msg_span_clear(&o->msg); break;
			default: break;
		}
		if( o->heap && o->k<=K_VARIANT && o->k!=K_TREE ) CHECK(o->u.map==NULL,"mix-free","the reference to a freed %s was not reset",kind_name[o->k]);
	}
}
/* ---- one call ---- */
static void drop_block(struct obj *o, size_t i) { memmove(o->b+i,o->b+i+1,sizeof *o->b*(o->nb-i-1)); o->nb--; }
static bool keep_block(struct obj *o, void *p, size_t n, uint8_t fill) { if( !p ) return false; memset(p,fill,n); o->b[o->nb++]=(struct blk){p,n,fill}; return true; }
static struct HarbolTree *pick_node(struct HarbolTree *t, rng *r) { while( t->kids.len && rc_(r,2,3) ) t=harbol_tree_get_node_by_index(t,rb_(r,t->kids.len)); return t; }
static size_t tree_count(struct HarbolTree const *t) { size_t n=1; for( size_t i=0; i<t->kids.len; i++ ) n+=tree_count(((struct HarbolTree**)(void*)t->kids.table)[i]); return n; }
static void cfg_path(struct HarbolMap const *m, rng *r, char *o) { size_t n=0; for( int d=0; d<6; d++ ) { if( !m->len || rc_(r,1,12) ) { n+=(size_t)sprintf(o+n,"%sk%zu",n? "." : "",rb_(r,7)); return; } size_t i=rb_(r,m->len); if( m->keylens[i]>40 ) { n+=(size_t)sprintf(o+n,"%sx",n? "." : ""); return; } n+=(size_t)sprintf(o+n,"%s%s",n? "." : "",(char*)m->keys[i]); struct HarbolVariant const *v=(void const*)m->datum[i]; if( v->tag!=HarbolCfgType_Map || rc_(r,1,4) ) return; m=*(struct HarbolMap**)v->data; } }
static bool spaces(int32_t c) { return c==' ' || c=='\t' || c=='\n'; }
static struct res mix_step(struct obj *o, uint64_t seed) {
	rng R={seed}, *r=&R; struct res z={true,true,hx(3,o->k),"?"}; char t[600]; uint8_t v[400]; memset(v,(int)rb_(r,6),sizeof v); v[0]=(uint8_t)rb_(r,4);
	#define N(s) z.name=s
	switch( o->k ) {
	case K_MAP: { struct HarbolMap *m=o->u.map; char k[400]; size_t kl; switch( rb_(r,5) ) { case 0: k[0]=(char)("ab\0z\xff"[rb_(r,5)]); kl=1; break; case 1: kl=rr_(r,254,258); memset(k,'a'+(int)rb_(r,2),kl); k[kl-1]=(char)('0'+rb_(r,3)); break; case 2: kl=rr_(r,2,9); memset(k,0,kl); k[0]=(char)rb_(r,3); break; default: kl=(size_t)sprintf(k,"%s%zu",(char const*[]){"a","bb","key"}[rb_(r,3)],rb_(r,12)); } size_t n=rc_(r,1,8)? rr_(r,25,400) : rr_(r,1,24);
		switch( rb_(r,14) ) {
			case 0: case 1: case 2: case 3: N("map_insert"); z.ok=harbol_map_insert(m,k,kl,v,n); break;
			case 4: N("map_key_set"); z.ok=harbol_map_key_set(m,k,kl,v,n); break;
			case 5: N("map_idx_set"); z.ok=harbol_map_idx_set(m,rb_(r,m->len+2),v,n); break;
			case 6: case 7: N("map_key_rm"); z.ok=harbol_map_key_rm(m,k,kl); break;
			case 8: N("map_idx_rm"); z.ok=harbol_map_idx_rm(m,rb_(r,m->len+2)); break;
			case 9: N("map_rehash"); z.ok=harbol_map_rehash(m,rr_(r,m->len,m->len+20)); break;
			case 10: { N("map_idx_get"); size_t i=rb_(r,m->len+2); uint8_t *p=harbol_map_idx_get(m,i); z.ok=p!=NULL; if( p ) z.h=hb(z.h,p,m->datalens[i]); break; }
			case 11: { N("map_key_get"); z.ok=harbol_map_key_get(m,k,kl)!=NULL; z.h=hx(z.h,harbol_map_has_key(m,k,kl)); break; }
			case 12: { N("map_key_val"); size_t l=0; char *p=harbol_map_key_val(m,v,n,&l); z.ok=p!=NULL; if( p ) z.h=hb(z.h,p,l); break; }
			default: if( rc_(r,1,3) ) { N("map_clear"); harbol_map_clear(m); } else { N("map_idx_val"); z.h=hx(z.h,harbol_map_idx_val(m,v,n)); } }
		break; }
	case K_ARRAY: { struct HarbolArray *a=o->u.arr; size_t ds=o->ds, i=rb_(r,a->len+2);
		if( a->table==NULL && rc_(r,2,3) ) { N("array_grow"); z.ok=harbol_array_grow(a,ds); break; }
		switch( rb_(r,24) ) {
			case 0: case 1: case 2: N("array_insert"); z.ok=harbol_array_insert(a,v,ds); break;
			case 3: case 4: N("array_append"); z.h=hx(z.h,harbol_array_append(a,v,ds)); break;
			case 5: case 6: N("array_grow"); if( a->cap<300 ) z.ok=harbol_array_grow(a,ds); break;
			case 7: N("array_resize"); z.ok=harbol_array_resize(a,ds,rr_(r,a->len,a->len+20)); break;
			case 8: N("array_shrink"); z.ok=harbol_array_shrink(a,ds,rc_(r,1,2)); break;
			case 9: N("array_pop_ex"); z.ok=harbol_array_pop_ex(a,v,ds); z.h=hb(z.h,v,ds); break;
			case 10: { N("array_pop"); void *p=harbol_array_pop(a,ds); z.ok=p!=NULL; if( p ) z.h=hb(z.h,p,ds); break; }
			case 11: { N("array_get"); void *p=harbol_array_get(a,i,ds); z.ok=p!=NULL; if( p ) z.h=hb(z.h,p,ds); break; }
			case 12: N("array_set"); z.ok=harbol_array_set(a,i,v,ds); break;
			case 13: N("array_swap"); z.ok=harbol_array_swap(a,ds); break;
			case 14: N("array_shift_up"); z.ok=harbol_array_shift_up(a,i,ds,rb_(r,3)); break;
			case 15: N("array_add"); z.ok=harbol_array_add(a,&o->aux_arr,ds); break;
			case 16: N("array_copy"); z.ok=harbol_array_copy(a,&o->aux_arr,ds); break;
			case 17: N("array_del_by_index"); z.ok=harbol_array_del_by_index(a,i,ds); break;
			case 18: N("array_del_by_range"); z.ok=harbol_array_del_by_range(a,i,ds,rr_(r,1,3)); break;
			case 19: N("array_del_by_val"); z.ok=harbol_array_del_by_val(a,v,ds); break;
			case 20: N("array_find"); z.h=hx(hx(z.h,harbol_array_index_of(a,v,ds,rb_(r,3))),harbol_array_item_count(a,v,ds)); break;
			case 21: if( rc_(r,1,3) ) { N("array_fill"); z.ok=harbol_array_fill(a,v,ds); } else { N("array_full"); z.h=hx(hx(z.h,harbol_array_full(a)),harbol_array_empty(a)); } break;
			case 22: N("array_wipe"); harbol_array_wipe(a,ds); break;
			default: if( rc_(r,1,3) ) { N("array_clear"); harbol_array_clear(a); } else { N("array_peek"); z.ok=harbol_array_peek_ex(a,v,ds); z.h=hb(z.h,v,ds); } }
		break; }
	case K_DEQUE: { struct HarbolDeque *d=o->u.dq; size_t ds=o->ds;
		switch( rb_(r,12) ) {
			case 0: case 1: case 2: case 3: N("deque_append"); z.ok=harbol_deque_append(d,v,ds)!=SIZE_MAX; break;
			case 4: case 5: case 6: N("deque_prepend"); z.ok=harbol_deque_prepend(d,v,ds)!=SIZE_MAX; break;
			case 7: N("deque_pop_front"); z.ok=harbol_deque_pop_front(d,v,ds); z.h=hb(z.h,v,ds); break;
			case 8: N("deque_pop_back"); z.ok=harbol_deque_pop_back(d,v,ds); z.h=hb(z.h,v,ds); break;
			case 9: { N("deque_get_front"); void *p=harbol_deque_get_front(d); z.ok=p!=NULL; if( p ) z.h=hb(z.h,p,ds); break; }
			case 10: { N("deque_get_back"); void *p=harbol_deque_get_back(d); z.ok=p!=NULL; if( p ) z.h=hb(z.h,p,ds); break; }
			default: if( rc_(r,1,4) ) { N("deque_clear"); harbol_deque_clear(d); } else if( rc_(r,1,3) ) { N("deque_reset"); harbol_deque_reset(d); } else { N("deque_count"); z.h=hx(z.h,harbol_deque_count(d)); } }
		break; }
	case K_STRING: { struct HarbolString *s=o->u.str; char p[40]; rtxt(r,p,4); size_t l=s->len; if( l>3000 ) { N("string_clear"); harbol_string_clear(s); break; }
		switch( rb_(r,27) ) {
			case 25: N("write_utf8_str"); z.ok=write_utf8_str(s,(int32_t)(rb_(r,3)? rr_(r,0x21,0x7ff) : rr_(r,0x800,0x10ffff))); break;
			case 0: case 1: N("string_add_char"); z.ok=harbol_string_add_char(s,(char)rr_(r,'a','f')); break;
			case 2: N("string_add_char_rep"); z.ok=harbol_string_add_char_rep(s,(char)rr_(r,'a','f'),rr_(r,1,30)); break;
			case 3: N("string_add_str"); z.ok=harbol_string_add_str(s,&o->aux_str); break;
			case 4: case 5: N("string_add_cstr"); rtxt(r,t,40); z.ok=harbol_string_add_cstr(s,t); break;
			case 6: N("string_copy_str"); z.ok=harbol_string_copy_str(s,&o->aux_str); break;
			case 7: N("string_copy_cstr"); rtxt(r,t,40); z.ok=harbol_string_copy_cstr(s,t); break;
			case 8: case 9: { N("string_format"); rtxt(r,t,40); int n=harbol_string_format(s,rc_(r,1,2),"%d <%s> %5.2f",(int)rb_(r,1000),t,(double)rb_(r,99)/4); z.ok=n>=0; if( z.ok ) z.h=hx(z.h,(uint64_t)n); break; }
			case 10: N("string_replace_char"); z.ok=harbol_string_replace_char(s,(char)rr_(r,'a','f'),(char)rr_(r,'a','f')); break;
			case 11: case 12: N("string_replace_cstr"); rtxt(r,t,rc_(r,1,2)? 2 : 12); if( !*p ) strcpy(p,"a"); p[1+rb_(r,2)]=0; z.ok=harbol_string_replace_cstr(s,p,t,rc_(r,1,2)? SIZE_MAX : rb_(r,4)); break;
			case 13: { N("string_replace_range"); if( !l ) break; size_t a=rb_(r,l), b=rr_(r,a,l-1); rtxt(r,t,12); z.ok=harbol_string_replace_range(s,a,b,t); break; }
			case 14: N("string_upper"); z.ok=harbol_string_upper(s); break;
			case 15: N("string_lower"); z.ok=harbol_string_lower(s); break;
			case 16: N("string_reverse"); z.ok=harbol_string_reverse(s); break;
			case 17: case 18: N("string_rm_char"); { size_t n=harbol_string_rm_char(s,(char)rr_(r,'a','f')); if( !mix_faulting ) z.h=hx(z.h,n); } z.strict=false; break;
			case 19: N("string_trim_spaces"); { size_t n=harbol_string_trim_spaces(s); if( !mix_faulting ) z.h=hx(z.h,n); } z.strict=false; break;
			case 20: N("string_find"); z.h=hx(hx(z.h,harbol_string_find_char(s,'b')),harbol_string_count_char(s,'a')); if( *p ) z.h=hx(z.h,harbol_string_count_cstr(s,p)); break;
			case 21: { N("string_cstr_offsets"); size_t f[8]={0}; if( !*p ) strcpy(p,"b"); z.ok=harbol_string_cstr_offsets(s,p,f,8); z.h=hb(z.h,f,sizeof f); break; }
			case 22: N("string_cmp"); z.h=hx(hx(z.h,harbol_string_cmpcstr(s,p)==0),harbol_string_cmpstr(s,&o->aux_str)==0); break;
			case 23: if( o->file[0] ) { N("string_read_file"); z.ok=harbol_string_read_file(s,o->file); } break;
			case 24: { N("string_scan"); int q=0; z.h=hx(z.h,(uint64_t)(s->cstr? harbol_string_scan(s,"%d",&q) : 0)); z.h=hx(z.h,(uint64_t)q); break; }
			default: if( rc_(r,1,3) ) { N("string_clear"); harbol_string_clear(s); } else { N("string_is_palindrome"); if( l ) z.h=hx(z.h,harbol_string_is_palindrome(s)); } }
		break; }
	case K_BYTES: { struct HarbolByteBuf *b=o->u.bb; size_t l=b->len; if( l>4000 ) { N("bytebuffer_clear"); harbol_bytebuffer_clear(b); break; }
		switch( rb_(r,17) ) {
			case 0: N("bytebuffer_insert_byte"); z.ok=harbol_bytebuffer_insert_byte(b,v[1]); break;
			case 1: N("bytebuffer_insert_int16"); z.ok=harbol_bytebuffer_insert_int16(b,(uint16_t)rnext(r)); break;
			case 2: N("bytebuffer_insert_int32"); z.ok=harbol_bytebuffer_insert_int32(b,(uint32_t)rnext(r)); break;
			case 3: N("bytebuffer_insert_int64"); z.ok=harbol_bytebuffer_insert_int64(b,rnext(r)); break;
			case 4: N("bytebuffer_insert_ptr"); z.ok=harbol_bytebuffer_insert_ptr(b,(uintptr_t)rnext(r)); break;
			case 5: N("bytebuffer_insert_float32"); z.ok=harbol_bytebuffer_insert_float32(b,(float)rb_(r,99)/3); break;
			case 6: N("bytebuffer_insert_float64"); z.ok=harbol_bytebuffer_insert_float64(b,(double)rb_(r,99)/3); break;
			case 7: case 8: N("bytebuffer_insert_cstr"); rtxt(r,t,60); z.ok=harbol_bytebuffer_insert_cstr(b,t); break;
			case 9: case 10: N("bytebuffer_insert_obj"); z.ok=harbol_bytebuffer_insert_obj(b,v,rc_(r,1,6)? rr_(r,64,sizeof v) : rr_(r,1,64)); break;
			case 11: N("bytebuffer_insert_zeros"); z.ok=harbol_bytebuffer_insert_zeros(b,rr_(r,1,90)); break;
			case 12: N("bytebuffer_del"); if( l ) z.ok=harbol_bytebuffer_del(b,rb_(r,l),rr_(r,1,9)); break;
			case 13: N("bytebuffer_append"); z.ok=harbol_bytebuffer_append(b,&o->aux_bb); break;
			case 14: N("bytebuffer_copy"); z.ok=harbol_bytebuffer_copy(b,&o->aux_bb); break;
			case 15: if( o->file[0] ) { N("bytebuffer_insert_from_filename"); z.ok=harbol_bytebuffer_insert_from_filename(b,o->file); } break;
			default: if( rc_(r,1,3) ) { N("bytebuffer_clear"); harbol_bytebuffer_clear(b); } else if( l ) { N("bytebuffer_to_file"); char *g=NULL; size_t gn=0; FILE *f=open_memstream(&g,&gn); z.ok=harbol_bytebuffer_to_file(b,f); fclose(f); z.h=hb(z.h,g,gn); vf_xfree(g); } }
		break; }
	case K_TUPLE: { struct HarbolTuple *p=o->u.tup; size_t i=rb_(r,o->nf+1);
		if( o->cleared ) { N("tuple_init"); z.ok=harbol_tuple_init(p,o->nf,o->sizes,o->packed); if( z.ok ) o->cleared=false; break; }
		switch( rb_(r,8) ) {
			case 0: case 1: case 2: case 3: N("tuple_set"); z.ok=harbol_tuple_set(p,i,v)!=NULL; break;
			case 4: { N("tuple_get"); void *q=harbol_tuple_get(p,i); z.ok=q!=NULL; if( q ) z.h=hb(z.h,q,o->sizes[i]); break; }
			case 5: { N("tuple_to_struct"); uint8_t b[600]; z.ok=harbol_tuple_to_struct(p,b); if( z.ok ) z.h=hb(z.h,b,harbol_tuple_len(p)); break; }
			case 6: N("tuple_clear"); harbol_tuple_clear(p); o->cleared=true; break;
			default: N("tuple_field_size"); z.h=hx(hx(z.h,harbol_tuple_field_size(p,i)),harbol_tuple_packed(p)); }
		break; }
	case K_TREE: { struct HarbolTree *p=pick_node(o->u.tree,r); size_t i=rb_(r,p->kids.len+1), n=rc_(r,1,8)? rr_(r,31,400) : rr_(r,1,30);
		switch( tree_count(o->u.tree)>60? 7+rb_(r,2) : rb_(r,13) ) {
			case 0: case 1: case 2: N("tree_insert_val"); z.ok=harbol_tree_insert_val(p,v,n); break;
			case 3: if( !o->spare ) { N("tree_new"); o->spare=harbol_tree_new(v,n); z.ok=o->spare!=NULL; break; } /* fall through */
			case 4: if( o->spare ) { N("tree_insert_node"); z.ok=harbol_tree_insert_node(p,&o->spare); if( z.ok ) o->spare=NULL; break; } /* fall through */
			case 5: if( o->spare ) { N("tree_insert_val"); z.ok=harbol_tree_insert_val(o->spare,v,n); break; } /* fall through */
			case 6: N("tree_set"); z.ok=harbol_tree_set(p,v,n); break;
			case 7: N("tree_rm_index"); z.ok=harbol_tree_rm_index(p,i); break;
			case 8: N("tree_rm_val"); z.ok=harbol_tree_rm_val(p,v,n); break;
			case 9: { N("tree_rm_node"); struct HarbolTree *q=harbol_tree_get_node_by_index(p,i); if( q ) z.ok=harbol_tree_rm_node(p,&q); break; }
			case 10: N("tree_get"); z.h=hb(z.h,harbol_tree_get(p),harbol_tree_len(p)); break;
			case 11: N("tree_get_node_by_val"); z.ok=harbol_tree_get_node_by_val(p,v,n)!=NULL; break;
			default: N("tree_free"); harbol_tree_free(&o->spare); }
		break; }
	case K_VARIANT: { struct HarbolVariant *p=o->u.var; size_t n=rc_(r,1,8)? rr_(r,61,400) : rr_(r,1,60);
		if( o->cleared ) { N("variant_init"); z.ok=harbol_variant_init(p,v,n,o->tag); if( z.ok ) o->cleared=false; break; }
		switch( rb_(r,7) ) {
			case 0: case 1: case 2: case 3: N("variant_set"); z.ok=harbol_variant_set(p,v,n); break;
			case 4: N("variant_data"); z.h=hb(z.h,harbol_variant_data(p),harbol_variant_size(p)); break;
			case 5: N("variant_tag"); z.h=hx(z.h,(uint64_t)harbol_variant_tag(p)); break;
			default: N("variant_clear"); harbol_variant_clear(p); o->cleared=true; }
		break; }
	case K_BISTACK: { size_t n=rr_(r,1,50);
		if( o->nb+o->nback>=MAXB ) { N("bistack_reset_all"); harbol_bistack_reset_all(&o->bi); o->nb=o->nback=0; break; }
		switch( rb_(r,9) ) {
			case 0: case 1: case 2: { N("bistack_alloc_front"); uint8_t *p=harbol_bistack_alloc_front(&o->bi,n); z.ok=p!=NULL; if( p ) { z.h=hx(z.h,(uint64_t)(p-o->bi.mem)); keep_block(o,p,n,v[1]); } break; }
			case 3: case 4: case 5: { N("bistack_alloc_back"); uint8_t *p=harbol_bistack_alloc_back(&o->bi,n); z.ok=p!=NULL; if( p ) { z.h=hx(z.h,(uint64_t)(p-o->bi.mem)); memset(p,1,n); } break; }
			case 6: N("bistack_reset_front"); harbol_bistack_reset_front(&o->bi); o->nb=0; break;
			case 7: N("bistack_reset_back"); harbol_bistack_reset_back(&o->bi); break;
			default: N("bistack_resize"); z.ok=harbol_bistack_resize(&o->bi,rr_(r,16,600)); if( z.ok ) o->nb=0; }
		break; }
	case K_REGION: { size_t n=rr_(r,1,40); if( o->nb>=MAXB ) break; N("region_alloc"); uint8_t *p=harbol_region_alloc(&o->reg,n); z.ok=p!=NULL; if( p ) { z.h=hx(z.h,(uint64_t)(p-o->reg.mem)); keep_block(o,p,n,v[1]); } break; }
	case K_OBJPOOL: { if( o->nb && rc_(r,2,5) ) { size_t i=rb_(r,o->nb); if( rc_(r,1,2) ) { N("objpool_free"); harbol_objpool_free(&o->op,o->b[i].p); } else { N("objpool_cleanup"); void *q=o->b[i].p; harbol_objpool_cleanup(&o->op,&q); CHECK(q==NULL,"mix-free","reference to a freed slot not reset"); } drop_block(o,i); } else { N("objpool_alloc"); uint8_t *p=harbol_objpool_alloc(&o->op); z.ok=p!=NULL; if( p ) { z.h=hx(z.h,(uint64_t)((uintptr_t)p-o->op.mem)); keep_block(o,p,o->op.objsize,v[1]); } } break; }
	case K_MEMPOOL: { size_t i=rb_(r,o->nb), n=rr_(r,1,rc_(r,1,4)? 600 : 70);
		if( o->nb && (o->nb>=MAXB || rc_(r,1,3)) ) { if( rc_(r,1,2) ) { N("mempool_free"); z.ok=harbol_mempool_free(&o->mp,o->b[i].p); } else { N("mempool_cleanup"); void *q=o->b[i].p; z.ok=harbol_mempool_cleanup(&o->mp,&q); } CHECK(z.ok,"mix-free","a live block was not taken back"); drop_block(o,i); }
		else if( o->nb && rc_(r,1,4) ) { N("mempool_realloc"); uint8_t *p=harbol_mempool_realloc(&o->mp,o->b[i].p,n); z.ok=p!=NULL; if( p ) { size_t c=n<o->b[i].n? n : o->b[i].n; for( size_t j=0; j<c; j++ ) CHECK(p[j]==o->b[i].fill,"mix-block","a resized block lost byte %zu",j); z.h=hx(z.h,(uint64_t)(p-o->mp.stack.mem)); memset(p,o->b[i].fill,n); o->b[i].p=p; o->b[i].n=n; } }
		else { N("mempool_alloc"); uint8_t *p=harbol_mempool_alloc(&o->mp,n); z.ok=p!=NULL; if( p ) { z.h=hx(z.h,(uint64_t)(p-o->mp.stack.mem)); keep_block(o,p,n,v[1]); } }
		break; }
	case K_CFG: { struct HarbolMap *m=o->cfg; cfg_path(m,r,t); bool conv=rc_(r,1,2);
		switch( rb_(r,18) ) {
			case 0: { N("cfg_set_str"); char b[40]; rtxt(r,b,30); struct HarbolString s={vf_exact_str(b,strlen(b)),strlen(b)}; z.ok=harbol_cfg_set_str(m,t,s,conv); vf_xfree(s.cstr); break; }
			case 1: case 2: { N("cfg_set_cstr"); char b[40]; rtxt(r,b,30); z.ok=harbol_cfg_set_cstr(m,t,b,conv); break; }
			case 3: N("cfg_set_float"); z.ok=harbol_cfg_set_float(m,t,(floatmax_t)rb_(r,1000)/8,conv); break;
			case 4: N("cfg_set_int"); z.ok=harbol_cfg_set_int(m,t,(intmax_t)rnext(r),conv); break;
			case 5: N("cfg_set_bool"); z.ok=harbol_cfg_set_bool(m,t,rc_(r,1,2),conv); break;
			case 6: { union HarbolColor c={(uint32_t)rnext(r)}; N("cfg_set_color"); z.ok=harbol_cfg_set_color(m,t,c,conv); break; }
			case 7: { struct HarbolVec4D q={1,(float)rb_(r,99),3,-4}; N("cfg_set_vec4D"); z.ok=harbol_cfg_set_vec4D(m,t,q,conv); break; }
			case 8: N("cfg_set_to_null"); z.ok=harbol_cfg_set_to_null(m,t); break;
			case 9: { N("cfg_calc_math"); floatmax_t f=harbol_cfg_calc_math(m,t,harbol_math_default_var_func,NULL,0); if( !mix_faulting && f==f ) z.h=hb(z.h,&f,10); z.strict=false; break; }
			case 10: case 11: { N("cfg_to_str"); struct HarbolString s=harbol_cfg_to_str(m); if( !mix_faulting ) z.h=hs(z.h,&s); harbol_string_clear(&s); z.strict=false; break; }
			case 12: { N("cfg_get_type"); z.h=hx(z.h,(uint64_t)harbol_cfg_get_type(m,t)); break; }
			case 13: { N("cfg_get"); intmax_t *i=harbol_cfg_get_int(m,t); if( i ) z.h=hx(z.h,(uint64_t)*i); floatmax_t *f=harbol_cfg_get_float(m,t); if( f ) z.h=hb(z.h,f,10); struct HarbolString *s=harbol_cfg_get_str(m,t); if( s ) z.h=hs(z.h,s); struct HarbolMap *q=harbol_cfg_get_section(m,t); if( q ) z.h=cfg_digest(q,z.h,0); size_t l=0; char *c=harbol_cfg_get_cstr(m,t,&l); if( !mix_faulting ) { if( c ) z.h=hb(z.h,c,l); } z.strict=false; break; }
			case 14: if( o->file[0] ) { N("cfg_build_file"); char f[40]; snprintf(f,sizeof f,"%s.out",o->file); bool k=harbol_cfg_build_file(m,f,true); if( !mix_faulting ) z.ok=k; z.strict=false; unlink(f); break; } /* fall through */
			default: { N("cfg_parse_cstr"); char *d=vf_xmalloc(20000); size_t n=gen_doc(r,d); if( rc_(r,1,4) ) { n=rb_(r,n+1); d[n]=0; } struct HarbolMap *q=harbol_cfg_parse_cstr(d); if( !mix_faulting ) z.h=cfg_digest(q,z.h,0); harbol_cfg_free(&q); vf_xfree(d); z.strict=false; } }
		break; }
	case K_MSG: switch( rb_(r,7) ) {
			case 0: case 1: case 2: { N("msg_span_add_label"); struct HarbolTokenSpan s; s.line_start=(uint32_t)rr_(r,1,8); s.line_end=s.line_start+(uint32_t)rb_(r,3); s.colm_start=(uint32_t)rb_(r,20); s.colm_end=s.colm_start+(uint32_t)rb_(r,20); rtxt(r,t,30); bool k=harbol_msg_span_add_label(&o->msg,s,COLOR_RED,rc_(r,1,2)? '^' : 0x2605,rc_(r,1,2)? COLOR_GREEN : NULL,"%s %d",t,(int)rb_(r,100)); if( !mix_faulting ) z.ok=k; else o->tainted=true; z.strict=false; break; }
			case 3: { N("msg_span_add_note"); rtxt(r,t,30); bool k=harbol_msg_span_add_note(&o->msg,rc_(r,1,2)? COLOR_BLUE : NULL,"%s",t); if( !mix_faulting ) z.ok=k; else o->tainted=true; z.strict=false; break; }
			case 4: case 5: { N("msg_span_emit"); char *g=NULL; size_t gn=0; FILE *f=open_memstream(&g,&gn); uint32_t l=(uint32_t)rb_(r,9); harbol_msg_span_emit_to_stream(&o->msg,&o->cnt,f,"file","error",NULL,COLOR_RED,&l,NULL,"text %zu",rb_(r,90)); fclose(f); if( !mix_faulting && !o->tainted ) z.h=hb(z.h,g,gn); vf_xfree(g); z.strict=false; break; }
			default: { N("msg_span_get_line"); z.h=hs(z.h,harbol_msg_span_get_line(&o->msg,rb_(r,8))); } }
		break;
	case K_MATH: { N("math_parse_expr"); char *e=vf_xmalloc(4000); e[gen_expr(r,e,4)]=0; if( rc_(r,1,5) ) e[rb_(r,strlen(e)+1)]=0; floatmax_t f=harbol_math_parse_expr(e,harbol_math_default_var_func,NULL,0); vf_xfree(e); if( !mix_faulting && f==f ) z.h=hb(z.h,&f,10); z.strict=false; break; }
	case K_LEX: { char x[200]; struct HarbolString s={0}; char const *e=x; bool fl=false, k=true; uint32_t ln=0; size_t lz=0; z.strict=false; z.h=hx(z.h,0);
		char const *num=(char const*[]){"0x1F.8p3 ","1234'567u ","0b1011 ","017 ","12.5e-3f ","0o17 ","1_000_000 ","0x","'","9.9"}[rb_(r,10)];
		switch( rb_(r,17) ) {
			case 0: N("lex_c_style_number"); strcpy(x,num); z.h=hx(z.h,(uint64_t)lex_c_style_number(x,&e,&s,&fl)); break;
			case 1: N("lex_go_style_number"); strcpy(x,num); z.h=hx(z.h,(uint64_t)lex_go_style_number(x,&e,&s,&fl)); break;
			case 2: N("lex_c_style_str"); sprintf(x,"\"%s\\x41\\u00e9 z\"%s",rc_(r,1,2)? "abc" : "\\n\\101",num); z.h=hx(z.h,(uint64_t)lex_c_style_str(x,&e,&s)); break;
			case 3: N("lex_go_style_str"); sprintf(x,"%c%s%c",'`',num,'`'); z.h=hx(z.h,(uint64_t)lex_go_style_str(x,&e,&s)); break;
			case 4: N("lex_single_line_comment"); sprintf(x,"// %s\\\n more\nrest",num); k=lex_single_line_comment(x,&e,&s,&ln); break;
			case 5: N("lex_multi_line_comment"); sprintf(x,"/* %s\n */ rest",num); k=lex_multi_line_comment(x,&e,"*/",2,&s,&ln); break;
			case 6: N("lex_multiquote_string"); sprintf(x,"\"\"\"%s\n\"\"\" rest",num); k=lex_multiquote_string(x,&e,"\"\"\"",3,&s,&lz); break;
			case 7: N("lex_until"); sprintf(x,"%s;rest",num); k=lex_until(x,&e,&s,';'); break;
			case 8: N("lex_until_false"); sprintf(x,"  \t%s",num); k=lex_until_false(x,&e,&s,spaces); break;
			case 9: N("lex_c_style_identifier"); sprintf(x,"ident_%zu rest",rb_(r,999)); k=lex_c_style_identifier(x,&e,&s); break;
			case 10: { N("write_utf8_str"); strcpy(x,""); k=true; for( int i=0; i<4; i++ ) k&=write_utf8_str(&s,(int32_t)rr_(r,0x21,0x1ffff)|1); break; }
			case 11: { N("rune_to_utf8_str"); int32_t u[6]={0}; for( int i=0; i<4; i++ ) u[i]=(int32_t)rr_(r,0x21,0xd000); strcpy(x,""); s=rune_to_utf8_str(u); break; }
			case 12: { N("utf8_cstr_to_rune"); strcpy(x,"h\xc3\xa9llo \xe2\x98\x9d"); size_t n=0; int32_t *u=utf8_cstr_to_rune(x,strlen(x),&n); if( !mix_faulting && u ) z.h=hb(z.h,u,n*4); free(u); break; }
			case 13: { N("rune_to_utf8_cstr"); int32_t u[6]={'a',0xe9,0x20ac,0x1f600,0}; size_t n=0; strcpy(x,""); char *c=rune_to_utf8_cstr(u,&n); if( !mix_faulting && c ) z.h=hb(z.h,c,n); free(c); break; }
			case 14: { N("lex_c_string_to_int"); strcpy(x,""); struct HarbolString q={(char*)"-12345",6}; z.h=hx(z.h,(uint64_t)lex_c_string_to_int(&q,NULL)); q.cstr=(char*)"0x1.8p3"; q.len=7; floatmax_t f=lex_string_to_float(&q); z.h=hb(z.h,&f,10); break; }
			case 15: { N("convert_cstr_to_base_int"); strcpy(x,""); bool q=false; z.h=hx(z.h,(uint64_t)convert_cstr_to_base_int("-7z",36,"0123456789abcdefghijklmnopqrstuvwxyz",&q)); z.h=hx(z.h,q); int32_t ru[]={'1','0','1',0}, nm[]={'0','1',0}; z.h=hx(z.h,convert_runes_to_base_uint(ru,2,nm,&q)); break; }
			default: { N("lex_fix_newlines"); strcpy(x,""); if( harbol_string_copy_cstr(&s,"a\r\nb\rc\td\n") ) lex_fix_newlines(&s,rc_(r,1,2)); } }
		if( !mix_faulting ) { z.h=hs(z.h,&s); z.h=hx(z.h,k); z.h=hx(z.h,(uint64_t)(e-x)); z.h=hx(z.h,ln+lz); z.h=hx(z.h,fl); }
		harbol_string_clear(&s); break; }
	case K_RAND: if( rc_(r,1,2) ) { N("MT_GenRand_UInt"); z.h=hx(z.h,MT_GenRand_UInt(&o->mt)); } else { N("MT_GenRand_F64"); double d=MT_GenRand_F64(&o->mt); z.h=hb(z.h,&d,8); } break;
	default: break;
	}
	return z;
	#undef N
}
