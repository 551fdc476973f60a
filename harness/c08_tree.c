/* C08: harbol_tree against an abstract ordered tree. */
#include "vf.h"
#include "tree/tree.h"
#define MAXN 600
struct node { struct HarbolTree *t; bool heap, live; size_t n; uint8_t *b; int parent; size_t nk; int kids[MAXN]; };
static bool large; static uint8_t b[70010];
static struct node *N; static int nn, alive[MAXN]; static size_t nalive, maxd;
static size_t count_nodes, depth_seen;
static void vnode(int id, int depth, char const *after) {
	struct node *x=&N[id]; struct HarbolTree *t=x->t; count_nodes++; if( (size_t)depth>depth_seen ) depth_seen=(size_t)depth;
	CHECK(harbol_tree_len(t)==x->n,"tree-len","after %s: node value has length %zu, expected %zu",after,harbol_tree_len(t),x->n);
	if( x->n ) { uint8_t *p=harbol_tree_get(t); CHECK(p && !memcmp(p,x->b,x->n),"tree-value","after %s: node value differs (length %zu)",after,x->n); if( vf_ledger_has(p) ) CHECK(vf_ledger_size(p)>=x->n,"tree-storage","after %s: value storage too small",after); }
	else CHECK(harbol_tree_get(t)==NULL,"tree-value","after %s: cleared node still has a value",after);
	CHECK(t->kids.len==x->nk,"tree-kids","after %s: node has %zu children, expected %zu",after,t->kids.len,x->nk);
	for( size_t i=0; i<x->nk; i++ ) { struct HarbolTree *k=harbol_tree_get_node_by_index(t,i); CHECK(k!=NULL && k==N[x->kids[i]].t,"tree-child","after %s: child %zu of %zu is not the expected node",after,i,x->nk); vnode(x->kids[i],depth+1,after); }
	CHECK(harbol_tree_get_node_by_index(t,x->nk)==NULL && harbol_tree_get_node_by_index(t,SIZE_MAX)==NULL,"tree-range","after %s: child beyond the last one not refused",after);
}
static void setb(int id, uint8_t const *p, size_t n) { vf_xfree(N[id].b); N[id].b = vf_xmalloc(n+1); memcpy(N[id].b,p,n); N[id].n=n; if( n>255 ) COUNT("large-value"); }
static bool rooted(int id) { while( N[id].parent>=0 ) id=N[id].parent; return N[id].live; }
static int fresh(void) { if( nn>=MAXN ) return -1; memset(&N[nn],0,sizeof N[nn]); N[nn].parent=-1; return nn++; }
static size_t gen(uint8_t *b) { static uint8_t const pool[4][4]={{1,2,3,4},{1,2,0,0},{0,0,0,0},{1,2,3,5}}; size_t n; if( vf_chance(2,3) ) { n=vf_range(1,4); memcpy(b,pool[vf_below(4)],n); } else { n = large? 1+vf_size(vf_chance(1,8)? 70000:1500) : vf_range(1,40); vf_bytes(b,n<40? n:40); if( n>40 ) { memset(b+40,(int)vf_below(3),n-40); b[n-1]=(uint8_t)vf_below(3); } } return n; }
static size_t subtree(int id) { size_t s=1; for( size_t i=0; i<N[id].nk; i++ ) s+=subtree(N[id].kids[i]); return s; }
static void kill_kids(int id) { for( size_t i=0; i<N[id].nk; i++ ) { kill_kids(N[id].kids[i]); N[N[id].kids[i]].live=false; } N[id].nk=0; }
static void detach(int p, size_t i) { int k=N[p].kids[i]; kill_kids(k); N[k].live=false; memmove(&N[p].kids[i],&N[p].kids[i+1],(N[p].nk-i-1)*sizeof(int)); N[p].nk--; }
static int find(int p, uint8_t const *b, size_t n) { for( size_t i=0; i<N[p].nk; i++ ) { struct node *k=&N[N[p].kids[i]]; if( k->n==n && !memcmp(k->b,b,n) ) return (int)i; } return -1; }
static int pick(bool root_only) { int c[MAXN], k=0; for( int i=0; i<nn; i++ ) if( N[i].live && (!root_only || (N[i].parent<0)) ) c[k++]=i; return k? c[vf_below((size_t)k)] : -1; }
static void verify(char const *after) {
	count_nodes=0; size_t heap=0; for( int i=0; i<nn; i++ ) if( N[i].live && N[i].parent<0 ) vnode(i,0,after);
	size_t l=0, blocks=0; for( int i=0; i<nn; i++ ) if( N[i].live ) { l++; blocks += (N[i].heap?1:0) + (N[i].n?1:0) + (N[i].t->kids.table?1:0); heap+=N[i].heap; }
	CHECK(l==count_nodes,"tree-nodes","after %s: model inconsistent",after);
	CHECK(vf_ledger_live()==blocks,"tree-memory","after %s: %zu blocks allocated, the nodes account for %zu",after,vf_ledger_live(),blocks);
}
static void history(uint64_t idx) {
	if( !N ) N=vf_xmalloc(sizeof *N*MAXN);
	for( int i=0; i<nn; i++ ) vf_xfree(N[i].b);
	nn=0; struct HarbolTree st={0}; depth_seen=0;
	int r=fresh(); { size_t n0=gen(b); setb(r,b,n0); } N[r].live=true; { void *src=vf_exact_buf(N[r].b,N[r].n); if( vf_chance(1,2) ) { N[r].t=harbol_tree_new(src,N[r].n); CHECK(N[r].t!=NULL,"tree-new","constructor failed"); N[r].heap=true; } else { N[r].t=&st; CHECK(harbol_tree_init(&st,src,N[r].n),"tree-new","init failed"); } memset(src,0x99,N[r].n); vf_xfree(src); }
	OP("root of %zu bytes",N[r].n); verify("construction");
	size_t nops=vf_range(1,60); unsigned deep=(unsigned)vf_below(3); size_t wide=0; if( large && vf_chance(1,3) ) { wide=vf_range(100,400); }
	for( size_t o=0; o<nops; o++ ) {
		unsigned op=(unsigned)vf_below(14); vf_mix(op); char const *nm="nothing"; size_t n=gen(b); int p=pick(false); if( p<0 ) break; if( deep==0 && vf_chance(1,2) ) { p=r; } else if( deep==1 && vf_chance(1,2) ) { for( int i=nn-1; i>=0; i-- ) if( N[i].live ) { p=i; break; } }
		struct HarbolTree *t=N[p].t; vf_mix((uint64_t)p); vf_mix(n);
		if( wide && o==2 && N[p].live && nn+(int)wide<MAXN-60 ) { for( size_t w=0; w<wide; w++ ) { int k=fresh(); size_t n1=gen(b); if( n1>300 ) n1=300; CHECK(harbol_tree_insert_val(t,b,n1),"tree-insert","refused"); N[k].t=harbol_tree_get_node_by_index(t,N[p].nk); CHECK(N[k].t!=NULL,"tree-insert","inserted child not last"); setb(k,b,n1); N[k].heap=N[k].live=true; N[k].parent=p; N[p].kids[N[p].nk++]=k; } OP("node %d: %zu children",p,wide); COUNT("wide"); n=gen(b); }
		switch( op ) {
		case 0: case 1: case 2: case 3: { int k=fresh(); if( k<0 ) break; int o=p; if( N[p].nk && vf_chance(1,2) ) o=N[p].kids[vf_below(N[p].nk)]; bool own=N[o].n && vf_chance(1,8); if( own ) { n=vf_range(1,N[o].n); memcpy(b,N[o].b,n); COUNT("own-value"); } void *src=vf_exact_buf(b,n); bool ok=harbol_tree_insert_val(t,own? harbol_tree_get(N[o].t) : src,n); memset(src,0x99,n); vf_xfree(src); OP("node %d: insert_val %zu -> %d",p,n,ok); nm="insert_val"; CHECK(ok,"tree-insert","refused"); N[k].t=harbol_tree_get_node_by_index(t,N[p].nk); CHECK(N[k].t!=NULL,"tree-insert","inserted child not last"); setb(k,b,n); N[k].heap=N[k].live=true; N[k].parent=p; N[p].kids[N[p].nk++]=k; COUNT("inserted"); if( N[p].nk>4 ) COUNT("grown-children"); } break;
		case 4: { int k=fresh(); if( k<0 ) break; struct HarbolTree *c=harbol_tree_new(b,n); CHECK(c!=NULL,"tree-new","refused"); N[k].t=c; setb(k,b,n); N[k].heap=N[k].live=true; OP("new detached node %d of %zu",k,n); nm="new"; if( vf_chance(1,2) ) { struct HarbolTree *ref=c; bool ok=harbol_tree_insert_node(t,&ref); OP("node %d: insert_node %d -> %d",p,k,ok); nm="insert_node"; CHECK(ok,"tree-insert","refused"); CHECK(ref==c,"tree-insert","reference changed"); N[k].parent=p; N[p].kids[N[p].nk++]=k; COUNT("node-inserted"); } } break;
		case 5: { /* attach an existing detached heap root elsewhere */ int c=-1; for( int i=1; i<nn; i++ ) if( N[i].live && N[i].heap && N[i].parent<0 ) c=i; if( c<0 || N[c].n==0 ) break; int a=p; while( a>=0 && a!=c ) a=N[a].parent; if( a==c || c==r ) break; struct HarbolTree *ref=N[c].t; bool ok=harbol_tree_insert_node(t,&ref); OP("node %d: insert_node %d (subtree of %zu) -> %d",p,c,subtree(c),ok); nm="insert_node"; CHECK(ok,"tree-insert","refused"); N[c].parent=p; N[p].kids[N[p].nk++]=c; COUNT("subtree-inserted"); } break;
		case 6: { size_t i = vf_chance(1,5)? N[p].nk+vf_below(3) : vf_below(N[p].nk+1); size_t cnt = i<N[p].nk? subtree(N[p].kids[i]) : 0; bool ok=harbol_tree_rm_index(t,i); OP("node %d: rm_index %zu of %zu -> %d",p,i,N[p].nk,ok); nm="rm_index"; CHECK(ok==(i<N[p].nk),"tree-rm-index","removing child %zu of %zu returned %d",i,N[p].nk,ok); if( ok ) { detach(p,i); COUNT("removed"); if( cnt>1 ) COUNT("subtree-removed"); } else COUNT("remove-refused"); } break;
		case 7: { if( N[p].nk && vf_chance(1,2) ) { struct node *k=&N[N[p].kids[vf_below(N[p].nk)]]; if( k->n ) { n=k->n; memcpy(b,k->b,n); if( vf_chance(1,4) && n>1 ) n--; else if( vf_chance(1,4) ) { b[vf_chance(1,2)? n-1 : vf_below(n)]^=1; COUNT("value-near-miss"); } } } int i=find(p,b,n); void *v=vf_exact_buf(b,n); bool own= i>=0 && vf_chance(1,4); if( own ) COUNT("own-value-removed"); bool ok=harbol_tree_rm_val(t,own? harbol_tree_get(N[N[p].kids[i]].t) : v,n); vf_xfree(v); OP("node %d: rm_val %zu -> %d",p,n,ok); nm="rm_val"; CHECK(ok==(i>=0),"tree-rm-val","removing a value %s returned %d",i>=0? "present":"absent",ok); if( ok ) { detach(p,(size_t)i); COUNT("value-removed"); } } break;
		case 8: { if( N[p].nk ) { size_t i=vf_below(N[p].nk); struct HarbolTree *ref=N[N[p].kids[i]].t; bool ok=harbol_tree_rm_node(t,&ref); OP("node %d: rm_node child %zu -> %d",p,i,ok); nm="rm_node"; CHECK(ok,"tree-rm-node","refused"); CHECK(ref==NULL,"tree-rm-node","reference not reset"); detach(p,i); COUNT("node-removed"); }
			else { struct HarbolTree *ref=t; bool ok=harbol_tree_rm_node(t,&ref); OP("node %d: rm_node foreign -> %d",p,ok); nm="rm_node"; CHECK(!ok && ref==t,"tree-rm-node","removal of a node that is no child accepted"); COUNT("foreign-refused"); } } break;
		case 9: { if( N[p].nk && vf_chance(2,3) ) { struct node *k=&N[N[p].kids[vf_below(N[p].nk)]]; if( k->n ) { n=k->n; memcpy(b,k->b,n); if( vf_chance(1,4) && n>1 ) n--; else if( vf_chance(1,4) ) { b[vf_chance(1,2)? n-1 : vf_below(n)]^=1; COUNT("value-near-miss"); } } } int i=find(p,b,n); void *v=vf_exact_buf(b,n); struct HarbolTree *g=harbol_tree_get_node_by_val(t,v,n); vf_xfree(v); OP("node %d: get_node_by_val %zu",p,n); nm="get_node_by_val"; CHECK(g==(i>=0? N[N[p].kids[i]].t:NULL),"tree-find","lookup by value (length %zu) gives the wrong child",n); if( g ) COUNT("found"); else COUNT("not-found"); } break;
		case 10: case 11: { if( N[p].n && vf_chance(1,3) ) { n=N[p].n; vf_bytes(b,n); } int o=p; if( N[p].nk && vf_chance(1,3) ) o=N[p].kids[vf_below(N[p].nk)]; size_t off=0; bool own=N[o].n && vf_chance(1,6); if( own ) { off=vf_below(N[o].n); n=N[o].n-off; memcpy(b,N[o].b+off,n); COUNT("own-value-set"); } void *v=vf_exact_buf(b,n); bool ok=harbol_tree_set(t,own? (uint8_t*)harbol_tree_get(N[o].t)+off : v,n); memset(v,0x99,n); vf_xfree(v); OP("node %d: set %zu -> %zu",p,N[p].n,n); nm="set"; CHECK(ok,"tree-set","refused"); if( n>N[p].n ) COUNT("set-longer"); else if( n<N[p].n ) COUNT("set-shorter"); setb(p,b,n); } break;
		case 12: if( vf_chance(1,5) ) { size_t cnt=subtree(p); harbol_tree_clear(t); OP("node %d: clear subtree of %zu",p,cnt); nm="clear"; kill_kids(p); N[p].n=0; COUNT("cleared"); if( vf_chance(1,2) ) harbol_tree_clear(t); if( p==r && !N[r].heap && vf_chance(1,2) ) { memset(&st,0,sizeof st); CHECK(harbol_tree_init(&st,b,n),"tree-new","refused"); setb(r,b,n); OP("init again"); } } break;
		case 13: { CHECK(!harbol_tree_insert_val(t,b,0) && !harbol_tree_set(t,b,0) && !harbol_tree_rm_val(t,b,0) && !harbol_tree_get_node_by_val(t,b,0),"tree-zero-size","a value of size zero was accepted"); } break;
		}
		verify(nm);
	}
	if( depth_seen>=3 ) COUNT("depth>=3");
	for( int i=1; i<nn; i++ ) if( N[i].live && N[i].parent<0 ) { harbol_tree_free(&N[i].t); CHECK(N[i].t==NULL,"tree-free","pointer not reset"); }
	if( N[r].heap ) { harbol_tree_free(&N[r].t); CHECK(N[r].t==NULL,"tree-free","pointer not reset"); harbol_tree_free(&N[r].t); } else { harbol_tree_clear(&st); harbol_tree_clear(&st); }
	vf_leak_check("tree-leak"); if( nops<3 ) vf_trivial(); (void)rooted;
}
static void history_large(uint64_t idx) { large=true; history(idx); large=false; }
/* more children than 16 bits can count, and a long chain */
static void huge(uint64_t idx) {
	size_t K=vf_range(65550,90000); struct HarbolTree *t=harbol_tree_new("root",4); CHECK(t!=NULL,"tree-new","constructor failed"); OP("huge %zu",K); vf_mix(K);
	for( size_t i=0; i<K; i++ ) { uint64_t v=i+1; CHECK(harbol_tree_insert_val(t,&v,sizeof v),"tree-insert","refused at %zu",i); }
	for( int r=0; r<2; r++ ) { for( size_t i=0; i<K-(size_t)r; i++ ) { struct HarbolTree *c=harbol_tree_get_node_by_index(t,i); uint64_t v= r && i>=65537? i+2:i+1; CHECK(c && *(uint64_t*)c->data==v,"tree-child","child %zu of %zu wrong",i,K); } if( !r ) { CHECK(harbol_tree_rm_index(t,65537),"tree-rm-index","refused"); uint64_t v=65540; struct HarbolTree *c=harbol_tree_get_node_by_val(t,&v,sizeof v); CHECK(c && c==harbol_tree_get_node_by_index(t,65538),"tree-find","child found at another place"); } }
	{ uint64_t v=K+5, w=K; CHECK(!harbol_tree_rm_val(t,&v,sizeof v) && harbol_tree_get_node_by_val(t,&v,sizeof v)==NULL,"tree-rm-val","absent value removed or found"); CHECK(harbol_tree_rm_val(t,&w,sizeof w),"tree-rm-val","value of the last of %zu children not found",K-1); K--; CHECK(t->kids.len==K-1,"tree-rm-val","wrong number of children"); w=vf_range(65545,K); struct HarbolTree *c=harbol_tree_get_node_by_val(t,&w,sizeof w); CHECK(c && *(uint64_t*)c->data==w,"tree-find","child of value %zu not found",(size_t)w); CHECK(harbol_tree_rm_node(t,&c) && c==NULL && harbol_tree_get_node_by_val(t,&w,sizeof w)==NULL,"tree-rm-node","child not removed"); K--; }
	CHECK(harbol_tree_get_node_by_index(t,K-1)==NULL,"tree-range","child beyond the last one");
	struct HarbolTree *e=harbol_tree_get_node_by_index(t,0); size_t D=vf_range(500,3000); for( size_t i=0; i<D; i++ ) { CHECK(harbol_tree_insert_val(e,&i,sizeof i),"tree-insert","refused"); e=harbol_tree_get_node_by_index(e,0); CHECK(e && *(size_t*)e->data==i,"tree-child","chain"); }
	COUNT("beyond-16-bit-count"); harbol_tree_free(&t); vf_leak_check("tree-leak");
}
/* a wide subtree handed over to another tree, emptied child by child in every way, refilled or not, then released */
static void emptied(uint64_t idx) {
	size_t K=vf_chance(1,2)? vf_range(1,200) : vf_range(1,1600), D=vf_below(3); struct HarbolTree st={0}, *r=NULL; bool stat=vf_chance(1,2); vf_mix(K); vf_mix(D); OP("wide subtree of %zu handed over %zu times",K,D);
	struct HarbolTree *w=harbol_tree_new("wide",4); CHECK(w!=NULL,"tree-new","constructor failed"); size_t serial=0, *want=vf_xmalloc(sizeof *want*(K+1)), n=0;
	struct HarbolTree *top=w;
	for( size_t i=0; i<K; i++ ) { serial++; CHECK(harbol_tree_insert_val(w,&serial,sizeof serial),"tree-insert","refused at %zu",i); want[n++]=serial; }
	for( size_t d=0; d<=D; d++ ) { struct HarbolTree *up=NULL; if( d==D && stat ) { CHECK(harbol_tree_init(&st,"top",3),"tree-new","refused"); up=&st; } else { up=harbol_tree_new("up",2); CHECK(up!=NULL,"tree-new","refused"); } size_t sib=vf_below(3); for( size_t i=0; i<sib; i++ ) CHECK(harbol_tree_insert_val(up,"sib",3),"tree-insert","refused"); struct HarbolTree *ref=top; CHECK(harbol_tree_insert_node(up,&ref),"tree-insert","a node with %zu children was refused",top->kids.len); CHECK(ref==NULL || ref==top,"tree-insert","reference changed"); CHECK(harbol_tree_get_node_by_index(up,sib)==top && up->kids.len==sib+1,"tree-child","handed-over node not last"); top=up; }
	if( !stat ) r=top;
	unsigned how=(unsigned)vf_below(5); size_t stop=vf_chance(2,3)? 0 : vf_below(n+1); vf_mix(how); vf_mix(stop);
	while( n>stop ) { unsigned h= how==4? (unsigned)vf_below(4) : how; size_t i= h==0? 0 : h==1? n-1 : vf_below(n); if( h==3 ) { CHECK(harbol_tree_rm_val(w,&want[i],sizeof want[i]),"tree-rm-val","value of child %zu of %zu not found",i,n); } else if( h==2 && vf_chance(1,2) ) { struct HarbolTree *ref=harbol_tree_get_node_by_index(w,i); CHECK(ref && harbol_tree_rm_node(w,&ref) && !ref,"tree-rm-node","child %zu of %zu refused",i,n); } else CHECK(harbol_tree_rm_index(w,i),"tree-rm-index","child %zu of %zu refused",i,n);
		memmove(&want[i],&want[i+1],(n-i-1)*sizeof *want); n--; CHECK(w->kids.len==n,"tree-kids","%zu children, expected %zu",w->kids.len,n); if( n ) { size_t q=vf_below(n); struct HarbolTree *c=harbol_tree_get_node_by_index(w,q); CHECK(c && *(size_t*)harbol_tree_get(c)==want[q],"tree-child","child %zu of %zu is not the expected one after a removal",q,n); } }
	for( size_t i=0; i<n; i++ ) { struct HarbolTree *c=harbol_tree_get_node_by_index(w,i); CHECK(c && *(size_t*)harbol_tree_get(c)==want[i],"tree-child","child %zu of %zu wrong",i,n); }
	CHECK(harbol_tree_get_node_by_index(w,n)==NULL,"tree-range","child beyond the last one");
	if( n==0 ) { COUNT("emptied"); if( K>64 ) COUNT("emptied-wide"); }
	if( vf_chance(1,2) ) { size_t m=vf_range(1,80); for( size_t i=0; i<m; i++ ) { serial++; CHECK(harbol_tree_insert_val(w,&serial,sizeof serial),"tree-insert","refused"); struct HarbolTree *c=harbol_tree_get_node_by_index(w,n+i); CHECK(c && *(size_t*)harbol_tree_get(c)==serial && c->kids.len==0,"tree-child","refilled child %zu wrong",i); } COUNT("refilled"); }
	if( vf_chance(1,3) ) { harbol_tree_clear(w); CHECK(w->kids.len==0 && harbol_tree_get(w)==NULL,"tree-clear","cleared node still has contents"); }
	if( stat ) { harbol_tree_clear(&st); if( vf_chance(1,2) ) harbol_tree_clear(&st); } else { harbol_tree_free(&r); CHECK(r==NULL,"tree-free","pointer not reset"); }
	vf_xfree(want); vf_leak_check("tree-leak");
}
struct vf_mode const vf_modes[] = { {"emptied", emptied}, {"history", history}, {"large", history_large}, {"huge", huge}, {0} };
struct vf_probe const vf_probes[] = { {0} };
