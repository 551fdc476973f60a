/* C11: harbol_objpool against a set of slots. */
#include "vf.h"
#include "allocators/objpool/objpool.h"
#define MAXS 2100
static bool large; static uint8_t *live[MAXS]; static uint8_t fill[MAXS]; static bool taken[MAXS];
static void history(uint64_t idx) {
	size_t os = vf_chance(1,2)? vf_range(1,40) : 8*vf_range(1,6), len = vf_chance(1,6)? vf_range(30,64) : vf_range(1,10); if( large ) { if( vf_chance(1,2) ) { os=1+vf_size(20000); if( vf_chance(1,2) ) os=(os+7)&~(size_t)7; if( os>255 ) COUNT("wide-object"); } else { len=vf_range(100,2000); if( os>64 ) os=64; COUNT("long-pool"); } } unsigned kind=(unsigned)vf_below(4); struct HarbolObjPool p={0}; bool res=false; uint8_t *buf=NULL;
	if( kind>=2 ) os=(os+7)&~(size_t)7;
	vf_mix(os); vf_mix(len); OP("pool of %zu objects of %zu bytes kind=%u",len,os,kind);
	if( kind==0 ) { p=harbol_objpool_make(os,len,&res); CHECK(res,"objpool-new","constructor failed"); } else if( kind==1 ) CHECK(harbol_objpool_init(&p,os,len),"objpool-new","init failed");
	else { buf=malloc(os*len); memset(buf,0xB5,os*len); if( kind==2 ) { p=harbol_objpool_from_buffer(buf,os,len,&res); CHECK(res,"objpool-new","from_buffer failed"); } else CHECK(harbol_objpool_init_from_buffer(&p,buf,os,len),"objpool-new","from_buffer failed"); }
	size_t slot=(os+7)&~(size_t)7; uint8_t *mem=(uint8_t*)p.mem; if( buf ) CHECK(mem==buf,"objpool-new","buffer not used"); CHECK(p.size==len && p.free_blocks==len,"objpool-count","fresh pool of %zu has %zu free",len,p.free_blocks);
	if( buf==NULL && vf_ledger_has(mem) ) CHECK(vf_ledger_size(mem)>=slot*len,"objpool-storage","%zu bytes allocated for %zu slots of %zu",vf_ledger_size(mem),len,slot);
	size_t nl=0; memset(taken,0,sizeof taken); size_t nops = large && len>70? vf_range(len/2,len*3) : vf_range(1,120); unsigned style=(unsigned)vf_below(4); if( large && len>70 && vf_chance(1,2) ) style=0;
	for( size_t o=0; o<nops; o++ ) {
		unsigned op=(unsigned)vf_below(10); if( style==0 && vf_chance(1,2) ) op=0; if( style==1 && vf_chance(1,3) ) op=5; vf_mix(op);
		if( op<5 ) { size_t before=p.free_blocks; uint8_t *b=harbol_objpool_alloc(&p); OP("alloc -> slot %zd (%zu live)",b?(b-mem)/(ssize_t)slot:-1,nl);
			if( nl==len ) { CHECK(b==NULL,"objpool-exhausted","object handed out with all %zu slots lent",len); CHECK(p.free_blocks==before,"objpool-count","refusal changed the free count"); COUNT("exhausted-refused"); continue; }
			CHECK(b!=NULL,"objpool-refused","refused with %zu of %zu lent",nl,len); CHECK(b>=mem && b+os<=mem+slot*len,"objpool-bounds","object outside the pool"); CHECK((size_t)(b-mem)%slot==0,"objpool-slot","object not at a slot boundary"); size_t s=(size_t)(b-mem)/slot; CHECK(!taken[s],"objpool-twice","slot %zu handed out while still lent",s);
			for( size_t j=0; j<os; j++ ) CHECK(b[j]==0,"objpool-zero","object not zeroed"); taken[s]=true; live[nl]=b; fill[nl]=(uint8_t)vf_rand(); memset(b,fill[nl],os); nl++; COUNT("granted"); if( nl==len ) COUNT("filled"); }
		else if( op<9 ) { if( !nl ) continue; size_t i = style==2? nl-1 : style==3? 0 : vf_below(nl); for( size_t j=0; j<os; j++ ) CHECK(live[i][j]==fill[i],"objpool-overlap","lent object was overwritten"); void *q=live[i]; if( vf_chance(1,2) ) harbol_objpool_free(&p,q); else { harbol_objpool_cleanup(&p,&q); CHECK(q==NULL,"objpool-cleanup","reference not reset"); harbol_objpool_cleanup(&p,&q); }
			OP("free slot %zu",(size_t)(live[i]-mem)/slot); vf_mix(i); taken[(live[i]-mem)/(ssize_t)slot]=false; memmove(&live[i],&live[i+1],(nl-i-1)*sizeof *live); memmove(&fill[i],&fill[i+1],nl-i-1); nl--; COUNT("released"); if( nl==0 ) COUNT("all-released"); }
		else { uint8_t *q; unsigned f=(unsigned)vf_below(5); static uint8_t other[64]; if( f==0 ) q=NULL; else if( f==1 ) q=mem+slot*len; else if( f==2 ) q=mem-8; else if( f==3 ) q=other+8; else q=mem+vf_below(len)*slot+vf_range(1,slot-1); size_t before=p.free_blocks; harbol_objpool_free(&p,q); OP("free foreign(%u)",f); CHECK(p.free_blocks==before,"objpool-foreign","releasing a pointer that is no slot (%s) changed the free count",f==0?"NULL":f==1?"the end":f==2?"before the start":f==3?"other memory":"interior"); COUNT("foreign-refused"); }
		CHECK(p.free_blocks==len-nl,"objpool-count","%zu free, expected %zu",p.free_blocks,len-nl);
		for( size_t i=(nl>70? vf_below(nl):0), z=0; i<nl && z<70; i++, z++ ) CHECK(live[i][0]==fill[i] && live[i][os-1]==fill[i],"objpool-overlap","lent object was overwritten");
	}
	for( size_t i=0; i<nl; i++ ) for( size_t j=0; j<os; j++ ) CHECK(live[i][j]==fill[i],"objpool-overlap","lent object was overwritten");
	if( vf_chance(1,20) ) { struct HarbolObjPool z={0}; CHECK(!harbol_objpool_init(&z,0,len) && !harbol_objpool_init(&z,os,0) && !harbol_objpool_init(&z,SIZE_MAX-vf_below(8),len) && !harbol_objpool_init(&z,SIZE_MAX/2,4),"objpool-absurd","absurd pool accepted"); CHECK(harbol_objpool_alloc(&z)==NULL,"objpool-absurd","refused pool hands out objects"); uint64_t small[4]; CHECK(!harbol_objpool_init_from_buffer(&z,small,4,4) && !harbol_objpool_init_from_buffer(&z,small,9,2),"objpool-buffer","object size that cannot hold an aligned index accepted"); COUNT("absurd-refused"); }
	/* a borrowed buffer of any object size: either refused or every object lies within it */
	if( vf_chance(1,10) ) { size_t o=vf_chance(1,2)? vf_range(1,40) : 4*vf_range(1,30), k=vf_range(1,24); uint8_t *ob=vf_xmalloc(o*k); struct HarbolObjPool z={0}; bool ok=harbol_objpool_init_from_buffer(&z,ob,o,k); vf_mix(o*100+k); OP("borrowed %zu x %zu -> %d",k,o,ok); if( o>=8 && o%8==0 ) CHECK(ok,"objpool-buffer","a buffer of %zu objects of %zu bytes was refused",k,o); else COUNT("unaligned-borrowed"); size_t got=0; if( ok ) { for( uint8_t *q, *last=NULL; (q=harbol_objpool_alloc(&z))!=NULL; last=q ) { CHECK(q>=ob && q+o<=ob+o*k && q!=last && ++got<=k,"objpool-buffer","object %zu lies outside the borrowed buffer of %zu x %zu bytes",got,k,o); memset(q,0xA5,o); } CHECK(got==k,"objpool-buffer","%zu of %zu objects handed out",got,k); } else CHECK(harbol_objpool_alloc(&z)==NULL,"objpool-buffer","refused pool hands out objects"); vf_xfree(ob); }
	if( buf && vf_chance(1,2) ) free(buf); else { harbol_objpool_clear(&p); CHECK(harbol_objpool_alloc(&p)==NULL,"objpool-clear","cleared pool hands out objects"); harbol_objpool_clear(&p); }
	vf_leak_check("objpool-leak"); if( nops<3 ) vf_trivial();
}
static void history_large(uint64_t idx) { large=true; history(idx); large=false; }
/* more objects than 16 bits can count */
static void huge(uint64_t idx) {
	size_t K=vf_range(65540,150000), os=8*vf_range(1,2); struct HarbolObjPool p={0}; OP("huge %zu of %zu",K,os); vf_mix(K); uint8_t *buf=NULL; if( vf_chance(1,2) ) CHECK(harbol_objpool_init(&p,os,K),"objpool-new","init failed"); else { buf=malloc(os*K); memset(buf,0xB5,os*K); CHECK(harbol_objpool_init_from_buffer(&p,buf,os,K),"objpool-new","init failed"); }
	uint8_t *mem=(uint8_t*)p.mem, *seen=vf_xcalloc(K,1); size_t *order=vf_xmalloc(K*sizeof *order);
	for( int r=0; r<2; r++ ) {
		for( size_t i=0; i<K; i++ ) { if( r && i>=K-K/3 ) break; uint8_t *b=harbol_objpool_alloc(&p); CHECK(b && b>=mem && b+os<=mem+os*K && (size_t)(b-mem)%os==0,"objpool-bounds","object %zu of %zu not a slot of the pool",i,K); size_t s=(size_t)(b-mem)/os; CHECK(!seen[s],"objpool-twice","slot %zu handed out while still lent",s); seen[s]=1; for( size_t j=0; j<os; j++ ) CHECK(b[j]==0,"objpool-zero","object not zeroed"); memset(b,0x77,os); order[i]=s; }
		if( r ) break; CHECK(harbol_objpool_alloc(&p)==NULL && p.free_blocks==0,"objpool-exhausted","object handed out with all lent");
		for( size_t i=0; i<K; i++ ) { size_t j=vf_below(K-i), s=order[j]; order[j]=order[K-1-i]; harbol_objpool_free(&p,mem+s*os); seen[s]=0; CHECK(p.free_blocks==i+1,"objpool-count","free count"); } }
	vf_xfree(seen); vf_xfree(order); COUNT("beyond-16-bit-count"); harbol_objpool_clear(&p); vf_leak_check("objpool-leak");
}
struct vf_mode const vf_modes[] = { {"history", history}, {"large", history_large}, {"huge", huge}, {0} };
struct vf_probe const vf_probes[] = { {0} };
