/* C12: harbol_mempool against a set of disjoint live blocks, with exact conservation of the pool's bytes. */
#include "vf.h"
#include "allocators/mempool/mempool.h"
#define MAXL 900
static bool large;
#define HDR sizeof(struct HarbolMemNode)
static struct l { uint8_t *p; size_t n; uint64_t seed; } L[MAXL]; static size_t nl;
static uint8_t pat(uint64_t s, size_t i) { s+=i*UINT64_C(0x9e3779b97f4a7c15); s^=s>>29; return (uint8_t)(s*31); }
static void fill(struct l *b) { for( size_t i=0; i<b->n; i++ ) b->p[i]=pat(b->seed,i); }
static void intact(struct l *b, size_t n) { for( size_t i=0; i<n; i++ ) CHECK(b->p[i]==pat(b->seed,i),"mempool-contents","byte %zu of a live block of %zu was changed",i,b->n); }
static size_t up8(size_t n) { return (n+7)&~(size_t)7; }
static void placed(uint8_t *p, size_t n, uint8_t *mem, size_t size, size_t skip) {
	CHECK(p>=mem+HDR && (size_t)(p-mem)<=size && n<=size-(size_t)(p-mem),"mempool-bounds","block of %zu bytes at offset %zd leaves the pool of %zu",n,(ssize_t)(p-mem),size); CHECK(((uintptr_t)p&7)==0,"mempool-alignment","misaligned block");
	for( size_t i=0; i<nl; i++ ) if( i!=skip ) CHECK(p>=L[i].p+L[i].n || p+n<=L[i].p,"mempool-overlap","new block of %zu overlaps a live block of %zu",n,L[i].n);
}
static void conserve(struct HarbolMemPool *m, size_t size, char const *after) {
	size_t rem=harbol_mempool_mem_remaining(m), used=0; for( size_t i=0; i<nl; i++ ) { struct HarbolMemNode *h=(struct HarbolMemNode*)(L[i].p-HDR); CHECK(h->size>=up8(L[i].n+HDR),"mempool-header","after %s: recorded size %zu of a live block of %zu bytes",after,h->size,L[i].n); used+=h->size; }
	CHECK(rem+used<=size && rem+used+7>=size-(size%8) ,"mempool-lost","after %s: %zu free + %zu lent of %zu bytes: memory lost or counted twice",after,rem,used,size);
	for( size_t i=0; i<nl; i++ ) intact(&L[i],L[i].n);
}
/* every free byte can be lent: ask for the largest piece, then the next... What stays must be the fragments that were already too small for the list they sit in (a
 * remainder of less than the smallest bucketless block left by a split) and the end of the fresh area. */
enum { NODE_MIN = 32, LARGE_MIN = (HARBOL_BUCKET_SIZE+1)<<HARBOL_BUCKET_BITS };
static void exhaust(struct HarbolMemPool *m, uint8_t *mem, size_t size, char const *when) {
	size_t stuck=0, first=nl; for( struct HarbolMemNode *h=m->large.head; h; h=h->next ) if( h->size<LARGE_MIN ) stuck+=h->size;
	for( size_t r=up8(size)+8; r>=8; r-=8 ) for( ;; ) { if( nl>=MAXL ) goto out; uint8_t *p=harbol_mempool_alloc(m,r); if( !p ) break; placed(p,r,mem,size,SIZE_MAX); L[nl].p=p; L[nl].n=r; L[nl].seed=vf_rand(); fill(&L[nl]); nl++; }
	size_t rem=harbol_mempool_mem_remaining(m); OP("exhaust: %zu more blocks, %zu bytes stay, %zu of them in small fragments",nl-first,rem,stuck); conserve(m,size,when);
	CHECK(rem<stuck+NODE_MIN+8,"mempool-unlendable","%s: %zu bytes are free but no request gets them (%zu in fragments below %d)",when,rem,stuck,LARGE_MIN); COUNT("exhausted"); if( nl-first>3 ) COUNT("exhausted-in-pieces");
	out: while( nl>first ) { size_t i=first+vf_below(nl-first); CHECK(harbol_mempool_free(m,L[i].p),"mempool-free","releasing a live block refused"); L[i]=L[nl-1]; nl--; } conserve(m,size,"release after exhausting");
}
static void history(uint64_t idx) {
	nl=0; size_t size = large? vf_range(6000,300000) : vf_chance(1,3)? vf_range(100,400) : vf_range(400,6000); if( vf_chance(2,3) ) size&=~(size_t)7; vf_mix(size); unsigned kind=(unsigned)vf_below(4); struct HarbolMemPool st={0}, *m=&st; bool res=false; uint8_t *buf=NULL;
	if( kind==0 ) { st=harbol_mempool_make(size,&res); CHECK(res,"mempool-new","constructor failed"); } else if( kind==1 ) CHECK(harbol_mempool_init(m,size),"mempool-new","init failed"); else { buf=malloc(size); memset(buf,0xDA,size); if( kind==2 ) { st=harbol_mempool_make_from_buffer(buf,size,&res); CHECK(res,"mempool-new","from_buffer failed"); } else CHECK(harbol_mempool_init_from_buffer(m,buf,size),"mempool-new","from_buffer failed"); }
	if( vf_chance(1,8) ) { uint64_t w[8]={0}; bool r1=true; struct HarbolMemPool z={0}; size_t sm=vf_below(sizeof(struct HarbolMemNode)+1); CHECK(!harbol_mempool_init(&z,0),"mempool-new","a pool of 0 bytes was created"); z=harbol_mempool_make(0,&r1); CHECK(!r1 && harbol_mempool_alloc(&z,1)==NULL,"mempool-new","a pool of 0 bytes was created"); z=(struct HarbolMemPool){0}; CHECK(!harbol_mempool_init_from_buffer(&z,w,sm),"mempool-new","a pool over %zu bytes, less than a header, was accepted",sm); r1=true; z=harbol_mempool_make_from_buffer(w,sm,&r1); CHECK(!r1,"mempool-new","a pool over %zu bytes, less than a header, was accepted",sm); COUNT("too-small-pool"); }
	OP("pool of %zu kind=%u",size,kind); uint8_t *mem=st.stack.mem; if( buf ) CHECK(mem==buf,"mempool-new","buffer not used"); CHECK(harbol_mempool_mem_remaining(m)==size,"mempool-remaining","fresh pool of %zu has %zu remaining",size,harbol_mempool_mem_remaining(m));
	size_t nops=vf_range(1,150), big = large? (vf_chance(1,2)? 3000 : vf_chance(1,2)? 20000 : 90) : vf_chance(1,2)? 64 : vf_chance(1,2)? 24 : size/3; unsigned style=(unsigned)vf_below(4);
	for( size_t o=0; o<nops; o++ ) {
		unsigned op=(unsigned)vf_below(20); if( style==0 && o<nops/2 && vf_chance(1,2) ) op=0; if( style==1 && (o/10)%2 && vf_chance(2,3) ) op=10; vf_mix(op); char const *nm="nothing";
		if( op<9 ) { bool absurd=vf_chance(1,25); size_t n = absurd? (vf_chance(1,2)? SIZE_MAX-vf_below(64) : size+vf_range(1,100)) : vf_chance(1,10)? vf_range(1,size) : large && vf_chance(1,2)? 1+vf_size(big) : vf_range(1,big); if( nl>=300 ) continue; vf_mix(n); size_t before=harbol_mempool_mem_remaining(m); uint8_t *p = vf_chance(1,8)? harbol_mempool_realloc(m,NULL,n) : harbol_mempool_alloc(m,n); OP("alloc %zd -> %zd",(ssize_t)n,p? p-mem:-1); nm="alloc";
			if( p ) { CHECK(!absurd,"mempool-absurd","request of %zu granted by a pool of %zu",n,size); size_t took=before-harbol_mempool_mem_remaining(m); CHECK(took<=up8(n+HDR)+64,"mempool-greedy","a request of %zu took %zu bytes of the pool",n,took); placed(p,n,mem,size,SIZE_MAX); for( size_t j=0; j<n; j++ ) CHECK(p[j]==0,"mempool-zero","byte %zu of a new block of %zu not zero",j,n); L[nl].p=p; L[nl].n=n; L[nl].seed=vf_rand(); fill(&L[nl]); nl++; COUNT("granted"); if( n+HDR>=72 ) COUNT("large-granted"); if( n>1000 ) COUNT("kilobyte-granted"); }
			else { COUNT("refused"); if( !absurd ) CHECK(up8(n+HDR)>(harbol_region_remaining(&st.stack)&~(size_t)7),"mempool-refused","request of %zu refused with %zu bytes of fresh space",n,harbol_region_remaining(&st.stack)); } }
		else if( op<16 ) { if( !nl ) continue; size_t i = style==2? nl-1 : style==3? 0 : vf_below(nl); intact(&L[i],L[i].n); void *q=L[i].p; bool r; if( vf_chance(1,2) ) r=harbol_mempool_free(m,q); else { r=harbol_mempool_cleanup(m,&q); CHECK(q==NULL,"mempool-cleanup","reference not reset"); CHECK(!harbol_mempool_cleanup(m,&q),"mempool-cleanup","releasing NULL accepted"); } OP("free %zd (%zu bytes) -> %d",L[i].p-mem,L[i].n,r); vf_mix(i); nm="free"; CHECK(r,"mempool-free","releasing a live block refused"); memmove(&L[i],&L[i+1],(nl-i-1)*sizeof *L); nl--; COUNT("released"); if( nl==0 ) COUNT("all-released"); }
		else if( op<18 ) { if( !nl ) { continue; } size_t i=vf_below(nl), n = vf_chance(1,8)? size+vf_range(1,50) : vf_chance(1,10)? 0 : vf_chance(1,2)? L[i].n+vf_range(0,40) : large && vf_chance(1,2)? 1+vf_size(big) : vf_range(1,big); vf_mix(n); struct l old=L[i]; uint8_t *p=harbol_mempool_realloc(m,old.p,n); OP("realloc %zd %zu -> %zu: %zd",old.p-mem,old.n,n,p? p-mem:-1); nm="realloc";
			if( p ) { CHECK(n>0 && n<=size,"mempool-absurd","resize to %zu granted",n); size_t common = n<old.n? n:old.n; placed(p,n,mem,size,i); for( size_t j=0; j<common; j++ ) CHECK(p[j]==pat(old.seed,j),"mempool-resize","byte %zu of %zu not preserved by resizing %zu to %zu",j,common,old.n,n); L[i].p=p; L[i].n=n; L[i].seed=vf_rand(); fill(&L[i]); COUNT("resized"); } else { intact(&L[i],L[i].n); COUNT("resize-refused"); if( n>0 && n<=size ) CHECK(harbol_mempool_alloc(m,n)==NULL,"mempool-resize-refused","resizing %zu to %zu refused, but a new block of %zu is granted",L[i].n,n,n); } }
		else { static uint64_t other[64]; uint8_t *q; unsigned f=(unsigned)vf_below(5); if( f==0 ) q=NULL; else if( f==1 ) q=mem+size; else if( f==2 ) q=mem+size+24; else if( f==3 ) q=mem+vf_below(HDR); else q=(uint8_t*)(other+8); size_t before=harbol_mempool_mem_remaining(m); bool r=harbol_mempool_free(m,q); OP("free foreign(%u) -> %d",f,r); nm="free(foreign)"; CHECK(!r,"mempool-foreign","releasing a foreign pointer accepted"); CHECK(harbol_mempool_mem_remaining(m)==before,"mempool-foreign","releasing a foreign pointer changed the pool"); if( q ) CHECK(harbol_mempool_realloc(m,q,8)==NULL,"mempool-foreign","resizing a foreign pointer accepted"); COUNT("foreign-refused"); }
		conserve(m,size,nm); if( !large && vf_chance(1,40) ) exhaust(m,mem,size,"mid-way");
	}
	while( nl ) { size_t i=vf_below(nl); CHECK(harbol_mempool_free(m,L[i].p),"mempool-free","releasing a live block refused"); L[i]=L[nl-1]; nl--; conserve(m,size,"final free"); }
	if( size<=20000 && vf_chance(1,2) ) exhaust(m,mem,size,"all released");
	if( buf && vf_chance(1,2) ) free(buf); else { harbol_mempool_clear(m); CHECK(harbol_mempool_alloc(m,1)==NULL && harbol_mempool_mem_remaining(m)==0,"mempool-clear","cleared pool hands out memory"); harbol_mempool_clear(m); }
	vf_leak_check("mempool-leak"); if( nops<3 ) vf_trivial();
}
/* neighbours released one after the other, up or down the pool, join into one piece of free memory; releasing in reverse order gives back the fresh area */
static void join(uint64_t idx) {
	nl=0; (void)idx; size_t size=vf_range(600,vf_chance(1,8)? 200000 : 8000)&~(size_t)7, big=vf_chance(1,3)? 60 : vf_chance(1,2)? size/4 : 300; struct HarbolMemPool m={0}; CHECK(harbol_mempool_init(&m,size),"mempool-new","init failed"); uint8_t *mem=m.stack.mem; vf_mix(size); OP("pool of %zu",size);
	for( size_t round=vf_range(1,4); round--; ) {
		size_t want=vf_range(2,120); while( nl<want ) { size_t n=vf_range(48,48+big); uint8_t *p=harbol_mempool_alloc(&m,n); if( !p ) break; placed(p,n,mem,size,SIZE_MAX); L[nl].p=p; L[nl].n=n; L[nl].seed=vf_rand(); fill(&L[nl]); nl++; }
		if( nl>3 ) { /* a run that does not reach the fresh area; the rest stays */ size_t k=vf_range(1,nl-1), a=vf_below(nl-k), sum=0; bool rev=vf_chance(1,2); vf_mix(k); vf_mix(a);
			for( size_t q=0; q<k; q++ ) { size_t i = rev? a+k-1-q : a+q; sum+=((struct HarbolMemNode*)(L[i].p-HDR))->size; CHECK(harbol_mempool_free(&m,L[i].p),"mempool-free","releasing a live block refused"); }
			OP("released %zu neighbours of %zu bytes %s",k,sum,rev? "upwards" : "downwards"); memmove(&L[a],&L[a+k],(nl-a-k)*sizeof *L); nl-=k; conserve(&m,size,"releasing neighbours"); size_t n=sum-HDR; uint8_t *p=harbol_mempool_alloc(&m,n); CHECK(p,"mempool-joined","%zu released neighbours of %zu bytes in all, but a request of %zu is refused",k,sum,n); placed(p,n,mem,size,SIZE_MAX); for( size_t j=0; j<n; j++ ) CHECK(p[j]==0,"mempool-zero","byte %zu of a new block of %zu not zero",j,n); memmove(&L[a+1],&L[a],(nl-a)*sizeof *L); L[a].p=p; L[a].n=n; L[a].seed=vf_rand(); fill(&L[a]); nl++; conserve(&m,size,"request as large as the neighbours"); if( k>1 ) COUNT("joined"); }
		/* lowest address first: everything returns to the fresh area */ for( ;nl; ) { size_t lo=0; for( size_t i=1; i<nl; i++ ) if( L[i].p<L[lo].p ) lo=i; intact(&L[lo],L[lo].n); CHECK(harbol_mempool_free(&m,L[lo].p),"mempool-free","releasing a live block refused"); L[lo]=L[nl-1]; nl--; }
		size_t n=size-HDR; uint8_t *p=harbol_mempool_alloc(&m,n); CHECK(p,"mempool-joined","all blocks released from the fresh area on, but a request of %zu out of %zu is refused",n,size); placed(p,n,mem,size,SIZE_MAX); CHECK(harbol_mempool_free(&m,p) && harbol_mempool_mem_remaining(&m)==size,"mempool-free","release of the whole pool"); COUNT("whole-again"); }
	harbol_mempool_clear(&m); vf_leak_check("mempool-leak"); }
static void history_large(uint64_t idx) { large=true; history(idx); large=false; }
struct vf_mode const vf_modes[] = { {"history", history}, {"large", history_large}, {"join", join}, {0} };
struct vf_probe const vf_probes[] = { {0} };
