#define _GNU_SOURCE
#include "vf.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <execinfo.h>

#if defined(__has_feature)
#  if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
#    define VF_SAN 1
#  endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#  define VF_SAN 1
#endif
#ifdef VF_SAN
extern void __sanitizer_set_death_callback(void (*cb)(void));
#endif

extern void *__real_malloc(size_t), *__real_calloc(size_t,size_t), *__real_realloc(void*,size_t);
extern void  __real_free(void*);

/* ------------------------------------------------------------------ randomness */
static uint64_t g_seed; static _Thread_local uint64_t g_state[4];
static char const *g_mode = "?"; static uint64_t g_case;
static uint64_t splitmix(uint64_t *x) { uint64_t z = (*x += 0x9e3779b97f4a7c15ull); z = (z ^ (z>>30))*0xbf58476d1ce4e5b9ull; z = (z ^ (z>>27))*0x94d049bb133111ebull; return z ^ (z>>31); }
static uint64_t rotl(uint64_t x, int k) { return (x<<k)|(x>>(64-k)); }
uint64_t vf_rand(void) {
	uint64_t *s = g_state, r = rotl(s[1]*5,7)*9, t = s[1]<<17;
	s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=rotl(s[3],45); return r;
}
size_t vf_below(size_t n) { return n? (size_t)(vf_rand() % n) : 0; }
size_t vf_range(size_t lo, size_t hi) { return lo + vf_below(hi - lo + 1); }
bool vf_chance(unsigned a, unsigned b) { return vf_below(b) < a; }
size_t vf_size(size_t max) {
	if( max==0 ) return 0;
	if( vf_chance(1,2) ) return vf_below((max<40? max:40)+1);
	unsigned b=0; while( (max>>b)>1 ) b++;
	if( vf_chance(1,3) ) { size_t lim=(size_t)1<<vf_range(0,b); return vf_below((lim<max? lim:max)+1); }
	size_t v=((size_t)1<<vf_range(0,b))+vf_below(5); v = v<2? 0 : v-2;
	return v>max? max : v;
}
void vf_bytes(void *p, size_t n) { uint8_t *b = p; for( size_t i=0; i<n; i++ ) b[i] = (uint8_t)(vf_rand()>>24); }
static void seed_case(char const *mode, uint64_t idx) {
	uint64_t h = g_seed*0x100000001b3ull + 0xcbf29ce484222325ull;
	for( char const *p=mode; *p; p++ ) h = (h ^ (uint8_t)*p) * 0x100000001b3ull;
	h ^= idx * 0x9e3779b97f4a7c15ull;
	for( int i=0; i<4; i++ ) g_state[i] = splitmix(&h);
}

void vf_seed_thread(uint64_t s) { for( int i=0; i<4; i++ ) g_state[i] = splitmix(&s); }
/* deterministic stand-ins for the library's own seeding (rand/srand/time) */
int  __wrap_rand(void) { return (int)(vf_rand() & 0x7fffffff); }
void __wrap_srand(unsigned s) { (void)s; }
long __wrap_time(long *t) { long v = (long)(1600000000 + (vf_rand() & 0xffffff)); if( t ) *t = v; return v; }

/* ------------------------------------------------------------------ trace & coverage */
bool vf_tracing; uint64_t vf_nops; _Thread_local uint64_t vf_checks;
static uint64_t g_hash; static bool g_trivial;
void vf_op_(char const *fmt, ...) {
	char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	fprintf(stderr, "OP %s\n", buf); fflush(stderr);
}
void vf_mix(uint64_t v) { g_hash = (rotl(g_hash,5) ^ v) * 0x9e3779b97f4a7c15ull; }
void vf_mix_bytes(void const *p, size_t n) { uint8_t const *b = p; vf_mix(n); for( size_t i=0; i<n; i++ ) vf_mix(b[i]); }
void vf_trivial(void) { g_trivial = true; }

static char const *g_cname[256]; static uint64_t g_cval[256]; static int g_cn;
static pthread_mutex_t g_cmu = PTHREAD_MUTEX_INITIALIZER;
int vf_counter_id(char const *name) {
	pthread_mutex_lock(&g_cmu);
	int i=0; for( ; i<g_cn; i++ ) if( !strcmp(g_cname[i], name) ) break;
	if( i==g_cn ) { g_cname[g_cn++] = name; }
	pthread_mutex_unlock(&g_cmu);
	return i;
}
void vf_counter_add(int id, uint64_t n) { __atomic_fetch_add(&g_cval[id], n, __ATOMIC_RELAXED); }

char const *vf_quote(void const *p, size_t n) {
	static char ring[8][1300]; static int k; char *o = ring[k++ & 7]; size_t w=0; uint8_t const *b=p;
	if( p==NULL ) return "(null)";
	o[w++]='"';
	for( size_t i=0; i<n && w<1280; i++ ) {
		if( b[i]=='"' || b[i]=='\\' ) { o[w++]='\\'; o[w++]=(char)b[i]; }
		else if( b[i]=='\n' ) { o[w++]='\\'; o[w++]='n'; }
		else if( b[i]>=32 && b[i]<127 ) o[w++]=(char)b[i];
		else w += (size_t)sprintf(o+w, "\\x%02x", b[i]);
	}
	o[w++]='"'; o[w]=0; return o;
}

/* ------------------------------------------------------------------ verdict */
void vf_violation(char const *sig, char const *fmt, ...) {
	char buf[4000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	for( char *p=buf; *p; p++ ) if( *p=='\n' ) *p=' ';
	fprintf(stderr, "\nVF-VIOLATION sig=%s mode=%s case=%" PRIu64 " op=%" PRIu64 " msg=%s\n", sig, g_mode, g_case, vf_nops, buf);
	fflush(stderr); _exit(42);
}
static void note_crash(char const *what) {
	char b[256]; int n = snprintf(b, sizeof b, "\nVF-CRASH what=%s mode=%s case=%" PRIu64 " op=%" PRIu64 "\n", what, g_mode, g_case, vf_nops);
	if( write(2, b, (size_t)n) < 0 ) {}
}
#ifdef VF_SAN
static void death(void) { note_crash("sanitizer"); }
#endif
static void on_signal(int s) {
	if( s==SIGPROF ) { note_crash("hang"); 
#ifndef VF_SAN
		void *bt[24]; int n = backtrace(bt, 24); backtrace_symbols_fd(bt, n, 2);
#endif
		_exit(43); }
	char b[32]; snprintf(b, sizeof b, "signal-%d", s); note_crash(b);
#ifndef VF_SAN
	void *bt[24]; int n = backtrace(bt, 24); backtrace_symbols_fd(bt, n, 2);
#endif
	_exit(44);
}
static unsigned g_cpu_limit = 10;
static unsigned g_cpu_scale = 1;
static void arm(void) { struct itimerval it = {{0,0},{(time_t)(g_cpu_limit*g_cpu_scale),0}}; setitimer(ITIMER_PROF, &it, NULL); }
/* for the running case only */
void vf_set_cpu_limit(unsigned s) { unsigned o = g_cpu_limit; g_cpu_limit = s; arm(); g_cpu_limit = o; }

/* ------------------------------------------------------------------ ledger */
#define LCAP (1u<<20)
static struct led { void *p; size_t n; unsigned owner; } *g_led; static unsigned g_owner; static size_t g_olive[VF_OWNERS]; static size_t g_live, g_bytes, g_acalls, g_fcalls, g_tomb;
static size_t g_failn, g_failfrom; static bool g_failhit;
static void *const TOMB = (void*)1;
enum { VF_BIG = 256u<<20 };
void *vf_xmalloc(size_t n) { void *p = __real_malloc(n? n:1); if( !p ) { fprintf(stderr,"VF-HARNESS oom\n"); _exit(3); } return p; }
void *vf_xcalloc(size_t n, size_t m) { void *p = __real_calloc(n?n:1, m?m:1); if( !p ) { fprintf(stderr,"VF-HARNESS oom\n"); _exit(3); } return p; }
void *vf_xrealloc(void *p, size_t n) { p = __real_realloc(p, n?n:1); if( !p ) { fprintf(stderr,"VF-HARNESS oom\n"); _exit(3); } return p; }
void vf_xfree(void *p) { __real_free(p); }
char *vf_exact_str(char const *s, size_t n) { char *p = vf_xmalloc(n+1); if( n ) memcpy(p, s, n); p[n]=0; return p; }
void *vf_exact_buf(void const *s, size_t n) { char *p = vf_xmalloc(n); if( n ) memcpy(p, s, n); return p; }
static size_t slot(void const *p) { return (size_t)(((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 44) & (LCAP-1); }
static void led_rehash(void) {
	void *old = g_led; g_led = __real_calloc(LCAP, sizeof *g_led); g_tomb = 0;
	struct led *o = old;
	if( o ) { for( size_t i=0; i<LCAP; i++ ) if( o[i].p && o[i].p!=TOMB ) { size_t k = slot(o[i].p); while( g_led[k].p ) k=(k+1)&(LCAP-1); g_led[k]=o[i]; } __real_free(old); }
}
static void led_add(void *p, size_t n) {
	if( !g_led || g_tomb > LCAP/4 ) led_rehash();
	size_t k = slot(p);
	while( g_led[k].p && g_led[k].p!=TOMB ) k=(k+1)&(LCAP-1);
	if( g_led[k].p==TOMB ) g_tomb--;
	g_led[k].p=p; g_led[k].n=n; g_led[k].owner=g_owner; g_olive[g_owner]++; g_live++; g_bytes+=n;
	if( g_live > LCAP/2 ) { fprintf(stderr,"VF-HARNESS ledger full\n"); note_crash("ledger-full"); _exit(44); }
}
static ssize_t led_find(void const *p) {
	if( !g_led || !p ) return -1;
	size_t k = slot(p);
	while( g_led[k].p ) { if( g_led[k].p==p ) return (ssize_t)k; k=(k+1)&(LCAP-1); }
	return -1;
}
static bool led_del(void *p) {
	ssize_t k = led_find(p); if( k<0 ) return false;
	g_live--; g_bytes -= g_led[k].n; g_olive[g_led[k].owner]--;
	if( g_owner && g_led[k].owner != g_owner ) vf_violation("foreign-free", "a call on object %u released or resized a block of %zu byte(s) that belongs to object %u", g_owner, g_led[k].n, g_led[k].owner);
	if( g_led[((size_t)k+1)&(LCAP-1)].p==NULL ) g_led[k].p=NULL; else { g_led[k].p=TOMB; g_tomb++; }
	return true;
}
void vf_ledger_reset(void) { if( g_live ) { for( size_t i=0; g_led && i<LCAP; i++ ) g_led[i].p=NULL; g_tomb=0; } g_live=g_bytes=g_acalls=g_fcalls=0; g_owner=0; memset(g_olive,0,sizeof g_olive); vf_fail_at(0); }
void vf_owner(unsigned o) { g_owner = o < VF_OWNERS? o : 0; }
size_t vf_owner_live(unsigned o) { return o < VF_OWNERS? g_olive[o] : 0; }
size_t vf_ledger_live(void) { return g_live; }
size_t vf_ledger_bytes(void) { return g_bytes; }
bool vf_ledger_has(void const *p) { return led_find(p) >= 0; }
size_t vf_ledger_size(void const *p) { ssize_t k = led_find(p); return k<0? 0 : g_led[k].n; }
size_t vf_alloc_calls(void) { return g_acalls; }
size_t vf_free_calls(void) { return g_fcalls; }
void vf_fail_at(size_t n) { g_failn = n? g_acalls + n : 0; g_failfrom = 0; g_failhit = false; }
void vf_fail_from(size_t n) { g_failfrom = n? g_acalls + n : 0; g_failn = 0; g_failhit = false; }
bool vf_fail_hit(void) { return g_failhit; }
/* the lowest free descriptor: rises when the library leaves a stream open */
static int g_fd0 = -1;
static int lowest_fd(void) { int f = fcntl(1, F_DUPFD_CLOEXEC, 3); if( f>=0 ) close(f); return f; }
void vf_leak_check(char const *sig) {
	if( g_fd0>=0 ) { int f = lowest_fd(); if( f!=g_fd0 ) vf_violation("file-left-open", "descriptor %d is still open after the case (lowest free descriptor was %d, is %d)", g_fd0, g_fd0, f); }
	if( g_live ) vf_violation(sig, "%zu block(s), %zu byte(s) allocated by the library were never released", g_live, g_bytes);
	vf_checks++;
}
static bool inject(size_t n) {
	g_acalls++;
	if( (g_failn && g_acalls==g_failn) || (g_failfrom && g_acalls>=g_failfrom) ) { g_failhit = true; return true; }
	return n > VF_BIG || g_bytes > ((size_t)1<<30);
}
#ifdef VF_THREADS  /* harnesses with threads: the ledger is shared (never under ThreadSanitizer, where a lock would hide races) */
static pthread_mutex_t g_lmu = PTHREAD_MUTEX_INITIALIZER;
#define LOCK() pthread_mutex_lock(&g_lmu)
#define UNLOCK() pthread_mutex_unlock(&g_lmu)
#else
#define LOCK() ((void)0)
#define UNLOCK() ((void)0)
#endif
#ifndef VF_NOLEDGER
void *__wrap_malloc(size_t n) { LOCK(); void *p = inject(n)? NULL : __real_malloc(n); if( p ) led_add(p, n); UNLOCK(); return p; }
void *__wrap_calloc(size_t a, size_t b) { size_t n; if( __builtin_mul_overflow(a,b,&n) ) n = SIZE_MAX; LOCK(); void *p = inject(n)? NULL : __real_calloc(a,b); if( p ) led_add(p, n); UNLOCK(); return p; }
void *__wrap_realloc(void *q, size_t n) {
	LOCK(); if( inject(n) ) { UNLOCK(); return NULL; }
	size_t had = 0; bool known = false; if( q ) { ssize_t k = led_find(q); if( k>=0 ) { known = true; had = g_led[k].n; } }
	(void)had;
	void *p = __real_realloc(q, n);
	if( p || n==0 ) { if( known ) led_del(q); if( p ) led_add(p, n); }
	UNLOCK(); return p;
}
void __wrap_free(void *p) { LOCK(); if( p ) { g_fcalls++; led_del(p); } __real_free(p); UNLOCK(); }
#else
void *__wrap_malloc(size_t n) { return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return __real_calloc(a,b); }
void *__wrap_realloc(void *q, size_t n) { return __real_realloc(q,n); }
void __wrap_free(void *p) { __real_free(p); }
#endif

static char g_scratch[512];
char const *vf_scratch(void) { return g_scratch; }

/* ------------------------------------------------------------------ main */
#define HMAX (1u<<22)
static uint64_t *g_hs; static size_t g_hn;
int main(int argc, char **argv) {
	uint64_t from=0, to=1; char const *mode=NULL, *probe=NULL, *hashes=NULL;
	for( int i=1; i<argc; i++ ) {
		if( !strcmp(argv[i],"--seed") ) g_seed = strtoull(argv[++i],0,0);
		else if( !strcmp(argv[i],"--from") ) from = strtoull(argv[++i],0,0);
		else if( !strcmp(argv[i],"--to") ) to = strtoull(argv[++i],0,0);
		else if( !strcmp(argv[i],"--mode") ) mode = argv[++i];
		else if( !strcmp(argv[i],"--probe") ) probe = argv[++i];
		else if( !strcmp(argv[i],"--trace") ) vf_tracing = true;
		else if( !strcmp(argv[i],"--hashes") ) hashes = argv[++i];
		else if( !strcmp(argv[i],"--cpu-scale") ) g_cpu_scale = (unsigned)atoi(argv[++i]);
		else if( !strcmp(argv[i],"--scratch") ) snprintf(g_scratch, sizeof g_scratch, "%s", argv[++i]);
		else { fprintf(stderr, "VF-HARNESS bad arg %s\n", argv[i]); return 3; }
	}
	setvbuf(stderr, NULL, _IOLBF, 1<<16);
	static char alt[1<<16]; stack_t ss = {.ss_sp=alt,.ss_size=sizeof alt};
	struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	sigaction(SIGPROF, &sa, NULL);
#ifdef VF_SAN
	__sanitizer_set_death_callback(death);
#else
	{ void *bt[2]; backtrace(bt, 2); }
	sigaltstack(&ss, NULL);
	int const sigs[] = {SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT};
	for( size_t i=0; i<sizeof sigs/sizeof *sigs; i++ ) sigaction(sigs[i], &sa, NULL);
#endif
	(void)ss;
	if( probe ) {
		for( struct vf_probe const *p=vf_probes; p->name; p++ ) if( !strcmp(p->name, probe) ) {
			g_mode = "probe"; seed_case(p->name, 0); vf_ledger_reset(); g_fd0 = lowest_fd(); g_cpu_limit = 5; arm(); p->run();
			printf("VF-PROBE-OK %s\n", probe); return 0;
		}
		fprintf(stderr, "VF-HARNESS unknown probe %s\n", probe); return 3;
	}
	struct vf_mode const *m = vf_modes;
	for( ; m->name; m++ ) if( !mode || !strcmp(m->name, mode) ) break;
	if( !m->name ) { fprintf(stderr, "VF-HARNESS unknown mode %s\n", mode? mode:"-"); return 3; }
	g_mode = m->name;
	g_hs = __real_malloc(sizeof *g_hs * HMAX);
	uint64_t trivial = 0, ops0 = 0;
	for( g_case=from; g_case<to; g_case++ ) {
		seed_case(m->name, g_case); g_hash = 0xabcdef; g_trivial = false; vf_ledger_reset(); g_fd0 = lowest_fd(); ops0 += vf_nops; vf_nops = 0; arm();
		if( vf_tracing ) fprintf(stderr, "CASE mode=%s idx=%" PRIu64 "\n", m->name, g_case);
		m->run(g_case);
		if( g_trivial ) trivial++; else if( g_hn < HMAX ) g_hs[g_hn++] = g_hash;
	}
	struct itimerval it = {{0,0},{0,0}}; setitimer(ITIMER_PROF, &it, NULL);
	ops0 += vf_nops;
	if( hashes ) { FILE *f = fopen(hashes, "wb"); if( !f || fwrite(g_hs, sizeof *g_hs, g_hn, f)!=g_hn ) { fprintf(stderr,"VF-HARNESS hashes\n"); return 3; } fclose(f); }
	printf("VF-DONE {\"cases\":%" PRIu64 ",\"trivial\":%" PRIu64 ",\"ops\":%" PRIu64 ",\"checks\":%" PRIu64 ",\"counters\":{", to-from, trivial, ops0, vf_checks);
	for( int i=0; i<g_cn; i++ ) printf("%s\"%s\":%" PRIu64, i? ",":"", g_cname[i], g_cval[i]);
	printf("}}\n"); fflush(stdout);
	_exit(0);
}
