/* Monitoring runtime shared by every harness: seeded case generator, operation trace, event counters,
 * allocation ledger with fault injection (link-time --wrap), per-case CPU watchdog, verdict reporting. */
#ifndef VF_H
#define VF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <limits.h>
#include <inttypes.h>

/* ---- harness side ---- */
struct vf_mode  { char const *name; void (*run)(uint64_t idx); };
struct vf_probe { char const *name; void (*run)(void); };
extern struct vf_mode  const vf_modes[];   /* NULL-name terminated */
extern struct vf_probe const vf_probes[];  /* NULL-name terminated */

/* ---- randomness (per case, from VERIF_SEED + mode + case index) ---- */
uint64_t vf_rand(void);
size_t   vf_below(size_t n);                 /* 0..n-1 (0 if n==0) */
size_t   vf_range(size_t lo, size_t hi);     /* inclusive */
bool     vf_chance(unsigned num, unsigned den);
size_t   vf_size(size_t max);                /* 0..max: mostly small, often next to a power of two */
void     vf_bytes(void *p, size_t n);
void     vf_seed_thread(uint64_t s);         /* the generator state is per thread */

/* ---- trace / coverage ---- */
extern bool vf_tracing;
extern uint64_t vf_nops;
void vf_op_(char const *fmt, ...) __attribute__((format(printf,1,2)));
#define OP(...) do { vf_nops++; if( vf_tracing ) vf_op_(__VA_ARGS__); } while( 0 )
void vf_mix(uint64_t v);                     /* contributes to the identity of the case */
void vf_mix_bytes(void const *p, size_t n);
int  vf_counter_id(char const *name);
void vf_counter_add(int id, uint64_t n);
#define COUNT_N(name, n) do { static int id_ = -1; if( id_ < 0 ) id_ = vf_counter_id(name); vf_counter_add(id_, (n)); } while( 0 )
#define COUNT(name) COUNT_N(name, 1)
void vf_trivial(void);                       /* mark the running case as trivial */
char const *vf_quote(void const *p, size_t n); /* printable rendering for traces (static ring) */

/* ---- verdict ---- */
void vf_violation(char const *sig, char const *fmt, ...) __attribute__((noreturn, format(printf,2,3)));
#define CHECK(cond, sig, ...) do { vf_checks++; if( !(cond) ) vf_violation(sig, __VA_ARGS__); } while( 0 )
extern _Thread_local uint64_t vf_checks;

/* ---- allocation ledger ---- */
void  *vf_xmalloc(size_t n);                 /* harness-private memory, not in the ledger */
void  *vf_xcalloc(size_t n, size_t m);
void  *vf_xrealloc(void *p, size_t n);
void   vf_xfree(void *p);
void   vf_ledger_reset(void);
size_t vf_ledger_live(void);                 /* blocks allocated through malloc/calloc/realloc and not yet freed */
size_t vf_ledger_bytes(void);
bool   vf_ledger_has(void const *p);
size_t vf_ledger_size(void const *p);
size_t vf_alloc_calls(void);                 /* allocation requests since reset */
size_t vf_free_calls(void);
void   vf_fail_at(size_t nth);               /* nth (1-based) request from now fails; 0 = off */
void   vf_fail_from(size_t nth);             /* all requests from the nth on fail; 0 = off */
bool   vf_fail_hit(void);                    /* has an injected failure been delivered since vf_fail_at */
enum { VF_OWNERS = 64 };
void   vf_owner(unsigned id);                /* blocks allocated from now on belong to object id (0 = nobody); releasing another object's block is a violation */
size_t vf_owner_live(unsigned id);
void   vf_leak_check(char const *sig);       /* violation when vf_ledger_live()!=0 */
char const *vf_scratch(void);                /* private scratch directory, removed at exit by the runner */
void   vf_set_cpu_limit(unsigned seconds);

/* Buffers with a red zone directly behind the payload (exactly sized heap block). */
char *vf_exact_str(char const *s, size_t n); /* n bytes + NUL, heap block of exactly n+1 bytes; free with vf_xfree */
void *vf_exact_buf(void const *s, size_t n);
#endif
