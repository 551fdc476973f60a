/* C27: intrusive links against abstract sequences; every chain of every list is walked after every operation. */
#include "vf.h"
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
enum { NODES=12, LISTS=2 };
/* ---- single links ---- */
struct s { struct HarbolLink l; int id; };
struct d { struct HarbolBiLink l; int id; };
struct seq { int v[NODES]; size_t n; bool tailless; };
static void seq_ins(struct seq *q, size_t at, int v) { memmove(&q->v[at+1],&q->v[at],(q->n-at)*sizeof *q->v); q->v[at]=v; q->n++; }
static void seq_del(struct seq *q, size_t at) { memmove(&q->v[at],&q->v[at+1],(q->n-at-1)*sizeof *q->v); q->n--; }
static void single(uint64_t idx) { (void)idx; struct s *nd[NODES]; bool used[NODES]={0}; struct seq q[LISTS]={{.n=0}}; struct s *head[LISTS]={NULL}, *tail[LISTS]={NULL};
	for( int i=0; i<NODES; i++ ) { nd[i]=vf_exact_buf(&(struct s){{NULL},i},sizeof(struct s)); if( vf_chance(1,2) ) harbol_link_set_a(nd[i],nd[vf_below((size_t)i+1)]); }
	for( int l=0; l<LISTS; l++ ) q[l].tailless=vf_chance(1,3);
	size_t ops=vf_range(1,30); for( size_t o=0; o<ops; o++ ) { int l=(int)vf_below(LISTS); int f=(int)vf_below(NODES); unsigned op=(unsigned)vf_below(5); vf_mix(op*64+(unsigned)f*2+(unsigned)l); if( op<4 && used[f] ) op=4;
		if( op==0 ) { OP("list %d: node %d to head%s",l,f,q[l].tailless?" (no tail kept)":""); harbol_link_add_to_head(&head[l],nd[f],q[l].tailless? NULL : (void*)&tail[l]); if( !q[l].n ) COUNT("first-node"); seq_ins(&q[l],0,f); used[f]=true; COUNT("to-head"); if( q[l].tailless ) COUNT("without-tail"); }
		else if( op==1 || op==2 ) { if( q[l].tailless ) continue; OP("list %d: node %d to tail",l,f); harbol_link_add_to_tail(&head[l],nd[f],&tail[l]); if( !q[l].n ) COUNT("first-node"); seq_ins(&q[l],q[l].n,f); used[f]=true; COUNT("to-tail"); }
		else if( op==3 ) { if( !q[l].n ) continue; size_t at=vf_below(q[l].n); OP("list %d: node %d after node %d",l,f,q[l].v[at]); harbol_link_add_after(nd[q[l].v[at]],nd[f]); if( at+1==q[l].n && !q[l].tailless ) tail[l]=nd[f]; seq_ins(&q[l],at+1,f); used[f]=true; COUNT("after"); }
		else { if( !q[l].n ) continue; size_t at=vf_below(q[l].n); int v=q[l].v[at]; OP("list %d: unlink node %d",l,v); void *next=harbol_link_get_a(nd[v]); if( at==0 ) { if( vf_chance(1,2) ) head[l]=next; else { void **r=(void**)&head[l]; *r=next; } } else if( vf_chance(1,2) ) harbol_link_set_a(nd[q[l].v[at-1]],next); else *harbol_link_get_a_ref(nd[q[l].v[at-1]])=next; if( at+1==q[l].n && !q[l].tailless ) tail[l]=at? nd[q[l].v[at-1]] : NULL; seq_del(&q[l],at); used[v]=false; COUNT("unlinked"); }
		for( int k=0; k<LISTS; k++ ) { size_t i=0; for( void *p=head[k]; p; p=harbol_link_get_a(p) ) { CHECK(i<q[k].n && p==(void*)nd[q[k].v[i]],"link-chain","list %d: position %zu holds node %d",k,i,((struct s*)p)->id); CHECK(*harbol_link_get_a_ref(p)==harbol_link_get_a(p),"link-ref","reference and value of the next link disagree"); i++; } CHECK(i==q[k].n,"link-chain","list %d: %zu nodes reachable, expected %zu",k,i,q[k].n);
			if( !q[k].tailless ) CHECK(tail[k]==(q[k].n? nd[q[k].v[q[k].n-1]] : NULL),"link-tail","list %d: wrong tail",k); }
		for( int i=0; i<NODES; i++ ) CHECK(nd[i]->id==i,"link-payload","payload of node %d changed",i); }
	for( int i=0; i<NODES; i++ ) vf_xfree(nd[i]); vf_leak_check("link-leak"); }
static void dbl(uint64_t idx) { (void)idx; struct d *nd[NODES]; bool used[NODES]={0}; struct seq q[LISTS]={{.n=0}}; struct d *head[LISTS]={NULL}, *tail[LISTS]={NULL};
	for( int i=0; i<NODES; i++ ) { nd[i]=vf_exact_buf(&(struct d){{NULL,NULL},i},sizeof(struct d)); if( vf_chance(1,2) ) { harbol_link_set_a(nd[i],nd[vf_below((size_t)i+1)]); harbol_bilink_set_b(nd[i],nd[vf_below((size_t)i+1)]); } }
	size_t ops=vf_range(1,30); for( size_t o=0; o<ops; o++ ) { int l=(int)vf_below(LISTS); int f=(int)vf_below(NODES); unsigned op=(unsigned)vf_below(6); vf_mix(op*64+(unsigned)f*2+(unsigned)l); if( op<4 && used[f] ) op=4;
		if( op==0 ) { bool nt=q[l].n && vf_chance(1,4); OP("list %d: node %d to head%s",l,f,nt?" (tail not passed)":""); harbol_bilink_add_to_head(&head[l],nd[f],nt? NULL : (void*)&tail[l]); if( !q[l].n ) COUNT("first-node"); if( nt ) COUNT("without-tail"); seq_ins(&q[l],0,f); used[f]=true; COUNT("to-head"); }
		else if( op==1 ) { OP("list %d: node %d to tail",l,f); harbol_bilink_add_to_tail(&head[l],nd[f],&tail[l]); if( !q[l].n ) COUNT("first-node"); seq_ins(&q[l],q[l].n,f); used[f]=true; COUNT("to-tail"); }
		else if( op<4 ) { if( !q[l].n ) continue; size_t at=vf_below(q[l].n); OP("list %d: node %d after node %d",l,f,q[l].v[at]); harbol_bilink_add_after(nd[q[l].v[at]],nd[f]); if( at+1==q[l].n ) tail[l]=nd[f]; seq_ins(&q[l],at+1,f); used[f]=true; COUNT("after"); }
		else { if( !q[l].n ) continue; size_t at=vf_below(q[l].n); int v=q[l].v[at]; OP("list %d: remove node %d",l,v); harbol_bilink_remove(&head[l],nd[v],&tail[l]); if( q[l].n==1 ) COUNT("removed-only"); else if( at==0 ) COUNT("removed-head"); else if( at+1==q[l].n ) COUNT("removed-tail"); else COUNT("removed-middle"); seq_del(&q[l],at); used[v]=false; }
		for( int k=0; k<LISTS; k++ ) { size_t i=0; for( void *p=head[k]; p; p=harbol_link_get_a(p) ) { CHECK(i<q[k].n && p==(void*)nd[q[k].v[i]],"bilink-chain","list %d: position %zu holds node %d",k,i,((struct d*)p)->id); CHECK(*harbol_bilink_get_b_ref(p)==harbol_bilink_get_b(p) && *harbol_link_get_a_ref(p)==harbol_link_get_a(p),"link-ref","reference and value of a link disagree"); i++; } CHECK(i==q[k].n,"bilink-chain","list %d: %zu nodes reachable, expected %zu",k,i,q[k].n);
			for( void *p=tail[k]; p; p=harbol_bilink_get_b(p) ) { CHECK(i>0 && p==(void*)nd[q[k].v[i-1]],"bilink-back","list %d backwards: %zu nodes before the end there is node %d",k,q[k].n-i,((struct d*)p)->id); i--; } CHECK(i==0,"bilink-back","list %d: %zu nodes missing backwards",k,i); }
		for( int i=0; i<NODES; i++ ) CHECK(nd[i]->id==i,"link-payload","payload of node %d changed",i); }
	for( int i=0; i<NODES; i++ ) vf_xfree(nd[i]); vf_leak_check("link-leak"); }
/* triple links: three independent references per node, used as a tree with parent links */
struct t { struct HarbolTriLink l; int id; };
static void tri(uint64_t idx) { (void)idx; struct t *nd[NODES]; void *m[NODES][3]={{NULL}}; for( int i=0; i<NODES; i++ ) nd[i]=vf_exact_buf(&(struct t){{NULL,NULL,NULL},i},sizeof(struct t));
	size_t ops=vf_range(1,40); for( size_t o=0; o<ops; o++ ) { int i=(int)vf_below(NODES), k=(int)vf_below(3); void *v=vf_chance(1,5)? NULL : (void*)nd[vf_below(NODES)]; bool viaref=vf_chance(1,3); OP("node %d link %c = %d%s",i,"abc"[k],v? ((struct t*)v)->id : -1,viaref?" (by reference)":""); vf_mix((unsigned)i*64+(unsigned)k*16+(v? (unsigned)((struct t*)v)->id : 15u)); m[i][k]=v;
		if( viaref ) { void **r=k==0? harbol_link_get_a_ref(nd[i]) : k==1? harbol_bilink_get_b_ref(nd[i]) : harbol_trilink_get_c_ref(nd[i]); *r=v; } else if( k==0 ) harbol_link_set_a(nd[i],v); else if( k==1 ) harbol_bilink_set_b(nd[i],v); else harbol_trilink_set_c(nd[i],v);
		for( int n=0; n<NODES; n++ ) CHECK(harbol_link_get_a(nd[n])==m[n][0] && harbol_bilink_get_b(nd[n])==m[n][1] && harbol_trilink_get_c(nd[n])==m[n][2] && nd[n]->id==n,"trilink-value","links of node %d wrong after setting link %c of node %d",n,"abc"[k],i); COUNT("triple"); }
	for( int i=0; i<NODES; i++ ) vf_xfree(nd[i]); }
struct vf_mode const vf_modes[]={{"single",single},{"double",dbl},{"triple",tri},{NULL,NULL}};
struct vf_probe const vf_probes[]={{NULL,NULL}};
