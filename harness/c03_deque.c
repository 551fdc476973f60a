/* C03: harbol_deque against an abstract double-ended queue of byte strings. */
#include "vf.h"
#include "deque/deque.h"
#define CAP 16384
struct el { size_t node; size_t n; uint8_t *b; };
static bool large; static uint8_t src_[70010], out[70010];
static void m_el(struct el *e) { e->b = vf_xmalloc(e->n+1); vf_bytes(e->b, e->n<40? e->n:40); if( e->n>40 ) { memset(e->b+40, (int)vf_below(5), e->n-40); e->b[e->n-1]=(uint8_t)vf_below(250); } }
static size_t elsize(size_t fixed) { return fixed? fixed : large? 1+vf_size(vf_chance(1,6)? 70000:600) : vf_range(1,32); }
static struct el *q; static size_t qh, qt; /* [qh,qt) in a flat array */
static void m_drop(void) { for( ; qh<qt; qh++ ) vf_xfree(q[qh].b); qh=qt=CAP/2; }
static void verify(struct HarbolDeque *d, char const *after) {
	size_t n = qt-qh;
	CHECK(harbol_deque_count(d)==n, "deque-count", "after %s: count %zu, expected %zu", after, harbol_deque_count(d), n);
	CHECK(harbol_deque_empty(d)==(n==0), "deque-empty", "after %s: empty flag wrong with %zu elements", after, n);
	void *f = harbol_deque_get_front(d), *b = harbol_deque_get_back(d);
	CHECK((f!=NULL)==(n>0) && (b!=NULL)==(n>0), "deque-ends", "after %s: front/back presence wrong with %zu elements", after, n);
	if( n ) {
		CHECK(!memcmp(f, q[qh].b, q[qh].n), "deque-front", "after %s: wrong front", after);
		CHECK(!memcmp(b, q[qt-1].b, q[qt-1].n), "deque-back", "after %s: wrong back", after);
	}
	size_t i=qh, node=harbol_deque_head(d);
	if( n==0 ) { CHECK(node==SIZE_MAX && harbol_deque_tail(d)==SIZE_MAX, "deque-empty-ends", "after %s: empty deque reports a head or tail", after); return; }
	for( ; node!=SIZE_MAX; node=harbol_deque_next(d, node), i++ ) {
		CHECK(i<qt, "deque-forward", "after %s: forward traversal visits more than %zu elements", after, n);
		CHECK(node==q[i].node, "deque-forward", "after %s: forward traversal position %zu is node %zu, expected %zu", after, i-qh, node, q[i].node);
		void *p = harbol_deque_get_data(d, node); CHECK(p && !memcmp(p, q[i].b, q[i].n), "deque-data", "after %s: wrong data at position %zu", after, i-qh);
	}
	CHECK(i==qt, "deque-forward", "after %s: forward traversal visits %zu of %zu elements", after, i-qh, n);
	for( node=harbol_deque_tail(d); node!=SIZE_MAX; node=harbol_deque_prev(d, node), i-- ) {
		CHECK(i>qh, "deque-backward", "after %s: backward traversal visits more than %zu elements", after, n);
		CHECK(node==q[i-1].node, "deque-backward", "after %s: backward traversal wrong at position %zu", after, i-1-qh);
	}
	CHECK(i==qh, "deque-backward", "after %s: backward traversal stops %zu elements early", after, i-qh);
}
static void history(uint64_t idx) {
	if( !q ) q = vf_xmalloc(sizeof *q * CAP);
	qh = qt = CAP/2; bool res=false;
	size_t init = vf_chance(1,8)? 0 : vf_range(1,9); vf_mix(init);
	struct HarbolDeque st = {0}, *d = &st; unsigned kind = (unsigned)vf_below(3);
	if( kind==0 ) { d = harbol_deque_new(init); CHECK(d!=NULL,"deque-new","constructor failed"); }
	else if( kind==1 ) { st = harbol_deque_make(init, &res); CHECK(res,"deque-new","constructor failed"); }
	else CHECK(harbol_deque_init(d, init),"deque-new","init failed");
	OP("new cap=%zu kind=%u", init, kind); if( init==0 ) COUNT("zero-capacity");
	size_t fixed = vf_chance(1,2)? vf_range(1,32) : 0; vf_mix(fixed);
	unsigned bias = (unsigned)vf_below(4);
	verify(d, "construction");
	size_t nops = vf_range(1,80);
	for( size_t o=0; o<nops; o++ ) {
		unsigned op = (unsigned)vf_below(20);
		if( vf_chance(1,4) ) op = bias; /* drive towards queue / stack / reversed patterns */
		vf_mix(op);
		switch( op ) {
		case 0: case 1: case 4: case 5: case 6: case 7: case 8: {
			bool front = (op & 1); struct el e; e.n = elsize(fixed); m_el(&e); struct el *own = qt>qh && vf_chance(1,8)? &q[qh+vf_below(qt-qh)] : NULL; if( own && own->n ) { vf_xfree(e.b); e.n=own->n; m_el(&e); memcpy(e.b,own->b,own->n); COUNT("own-element"); } else own=NULL;
			uint8_t *src = vf_exact_buf(e.b, e.n);
			void *from = own? harbol_deque_get_data(d,own->node) : src; e.node = front? harbol_deque_prepend(d, from, e.n) : harbol_deque_append(d, from, e.n);
			OP("%s %zu bytes -> node %zd", front? "prepend":"append", e.n, (ssize_t)e.node);
			memset(src, 0xAA, e.n); vf_xfree(src);
			CHECK(e.node!=SIZE_MAX, "deque-insert", "%s refused with memory available", front? "prepend":"append");
			for( size_t i=qh; i<qt; i++ ) CHECK(q[i].node!=e.node, "deque-alias", "node %zu handed out while still in use", e.node);
			if( front ) q[--qh]=e; else q[qt++]=e;
			COUNT("inserted"); if( e.n>255 ) COUNT("large-element");
			verify(d, front? "prepend":"append"); } break;
		case 2: case 3: case 9: case 10: case 11: case 12: case 13: {
			bool front = (op & 1); size_t n = qt-qh; struct el *e = n? (front? &q[qh] : &q[qt-1]) : NULL; memset(out, 0xEE, (e? e->n:4)+8);
			bool r = front? harbol_deque_pop_front(d, out, e? e->n : 4) : harbol_deque_pop_back(d, out, e? e->n : 4);
			OP("pop_%s -> %d", front? "front":"back", r);
			CHECK(r==(n>0), "deque-pop", "pop returned %d with %zu elements", r, n);
			if( r ) { CHECK(!memcmp(out, e->b, e->n) && out[e->n]==0xEE, "deque-pop-value", "pop_%s yielded wrong bytes", front? "front":"back");
				vf_xfree(e->b); if( front ) qh++; else qt--; COUNT("popped"); if( n==1 ) COUNT("popped-last"); }
			else { CHECK(out[0]==0xEE, "deque-pop-value", "refused pop wrote a value"); COUNT("pop-refused-empty"); }
			verify(d, front? "pop_front":"pop_back"); } break;
		case 14: if( vf_chance(1,8) ) { harbol_deque_reset(d); OP("reset"); m_drop(); verify(d,"reset"); COUNT("reset"); } break;
		case 15: if( vf_chance(1,8) ) { harbol_deque_clear(d); OP("clear"); m_drop(); verify(d,"clear"); if( kind!=0 && vf_chance(1,2) ) { CHECK(harbol_deque_init(d, 1+vf_below(4)),"deque-new","init after clear failed"); OP("init"); } COUNT("cleared"); verify(d,"init after clear"); } break;
		case 16: { CHECK(harbol_deque_get_data(d, SIZE_MAX)==NULL && harbol_deque_next(d, SIZE_MAX)==SIZE_MAX && harbol_deque_prev(d, SIZE_MAX)==SIZE_MAX && harbol_deque_get_data(d, d->cap)==NULL,"deque-bounds","out of range node not refused"); CHECK(harbol_deque_next(d,d->cap)==SIZE_MAX && harbol_deque_prev(d,d->cap)==SIZE_MAX && harbol_deque_next(d,d->cap+1+vf_below(9))==SIZE_MAX && harbol_deque_prev(d,d->cap+1+vf_below(9))==SIZE_MAX && harbol_deque_get_data(d,d->cap+1)==NULL,"deque-bounds","out of range node not refused"); } break;
		default: { /* drain or fill burst */
			size_t k = large && vf_chance(1,3)? vf_range(1,200) : vf_range(1,12); if( large && qt-qh>1500 ) op=19;
			for( size_t i=0; i<k; i++ ) {
				struct el e; e.n = elsize(fixed); m_el(&e);
				if( op==17 ) { e.node = harbol_deque_append(d, e.b, e.n); CHECK(e.node!=SIZE_MAX,"deque-insert","append refused"); q[qt++]=e; }
				else if( op==18 ) { e.node = harbol_deque_prepend(d, e.b, e.n); CHECK(e.node!=SIZE_MAX,"deque-insert","prepend refused"); q[--qh]=e; }
				else if( qt>qh ) { bool fr = vf_chance(1,2); struct el *x = fr? &q[qh] : &q[qt-1]; CHECK(fr? harbol_deque_pop_front(d,out,x->n) : harbol_deque_pop_back(d,out,x->n),"deque-pop","pop refused"); CHECK(!memcmp(out,x->b,x->n),"deque-pop-value","wrong bytes"); vf_xfree(x->b); if( fr ) qh++; else qt--; }
			}
			OP("burst %u x%zu", op, k); vf_mix(k); verify(d,"burst"); } break;
		}
	}
	if( kind==0 ) { harbol_deque_free(&d); CHECK(d==NULL,"deque-free","pointer not reset"); harbol_deque_free(&d); } else { harbol_deque_clear(d); m_drop(); verify(d,"clear"); harbol_deque_clear(d); }
	m_drop();
	vf_leak_check("deque-leak");
	if( nops<3 ) vf_trivial();
}
static void history_large(uint64_t idx) { large=true; history(idx); large=false; }
/* more elements than 16 bits can count */
static void huge(uint64_t idx) {
	size_t N=vf_range(65540,140000), f=0, b=0; struct HarbolDeque d={0}; CHECK(harbol_deque_init(&d,vf_chance(1,2)? vf_range(1,9) : vf_range(65530,70000)),"deque-new","init failed"); OP("huge %zu",N); vf_mix(N);
	int64_t lo=0, hi=0; /* values lo..hi-1 in order */
	for( size_t i=0; i<N; i++ ) { bool fr=vf_chance(1,3); int64_t v= fr? --lo : hi++; size_t n= fr? harbol_deque_prepend(&d,&v,sizeof v) : harbol_deque_append(&d,&v,sizeof v); CHECK(n!=SIZE_MAX,"deque-insert","insertion refused at %zu",i); f+=fr; b+=!fr; }
	for( int r=0; r<2; r++ ) { int64_t e=lo; size_t c=0; for( size_t n=harbol_deque_head(&d); n!=SIZE_MAX; n=harbol_deque_next(&d,n), e++, c++ ) { CHECK(c<N,"deque-forward","endless"); int64_t *p=harbol_deque_get_data(&d,n); CHECK(p && *p==e,"deque-data","element %zu wrong",c); } CHECK(e==hi && harbol_deque_count(&d)==(size_t)(hi-lo),"deque-count","count");
		e=hi; c=0; for( size_t n=harbol_deque_tail(&d); n!=SIZE_MAX; n=harbol_deque_prev(&d,n), c++ ) { CHECK(c<N,"deque-backward","endless"); e--; int64_t *p=harbol_deque_get_data(&d,n); CHECK(p && *p==e,"deque-data","element wrong from the back"); } CHECK(e==lo,"deque-backward","count");
		if( r ) break; size_t k=vf_below(N/2); for( size_t i=0; i<k; i++ ) { int64_t v; bool fr=vf_chance(1,2); CHECK(fr? harbol_deque_pop_front(&d,&v,sizeof v) : harbol_deque_pop_back(&d,&v,sizeof v),"deque-pop","refused"); if( fr ) { CHECK(v==lo,"deque-pop-value","wrong front"); lo++; } else { hi--; CHECK(v==hi,"deque-pop-value","wrong back"); } } for( size_t i=0; i<k/2; i++ ) { int64_t v=hi++; CHECK(harbol_deque_append(&d,&v,sizeof v)!=SIZE_MAX,"deque-insert","refused"); } OP("popped %zu",k); }
	if( vf_chance(1,2) ) { harbol_deque_reset(&d); OP("reset"); CHECK(vf_ledger_live()<16,"deque-reset","reset left %zu blocks",vf_ledger_live()); CHECK(harbol_deque_count(&d)==0 && harbol_deque_head(&d)==SIZE_MAX && harbol_deque_tail(&d)==SIZE_MAX && harbol_deque_empty(&d),"deque-reset","not empty after reset"); size_t M=d.cap, seen=0; for( size_t i=0; i<M+3; i++ ) CHECK(harbol_deque_append(&d,&i,sizeof i)!=SIZE_MAX,"deque-insert","append after reset refused at %zu of capacity %zu",i,M); for( size_t n=harbol_deque_head(&d); n!=SIZE_MAX && seen<=M+3; n=harbol_deque_next(&d,n), seen++ ) { size_t *p=harbol_deque_get_data(&d,n); CHECK(p && *p==seen,"deque-data","element %zu wrong after reset",seen); } CHECK(seen==M+3 && d.len==seen,"deque-count","%zu elements after reset and refill, expected %zu",seen,M+3); COUNT("huge-reset"); }
	COUNT("beyond-16-bit-count"); harbol_deque_clear(&d); vf_leak_check("deque-leak");
}
struct vf_mode const vf_modes[] = { {"history", history}, {"large", history_large}, {"huge", huge}, {0} };
struct vf_probe const vf_probes[] = { {0} };
