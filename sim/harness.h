#ifndef HARNESS_H
#define HARNESS_H
#include "simint.h"
/* options given on the command line / in a replay file */
typedef struct {
   u64 seed; const char *harness; const char *profile;
   u64 opskip_lo[64], opskip_hi[64]; int nskip;     /* operation ids to leave out */
   int max_threads;                                 /* 0 = as planned */
   u64 max_ops;                                     /* 0 = as planned; per thread */
   u32 dec_limit;                                   /* scheduling decisions before the default policy */
   int dec_epoch;                                   /* epoch to which dec_limit/replay applies (-1 all) */
   int nofaults;
   u64 fault_limit; int has_fault_limit;            /* at most so many injected faults */
   int verbose; int thorough;
   i64 p[16]; int has_p[16];                        /* free harness parameters p0..p15 */
} run_opts;
extern run_opts OPT;
int op_skipped(u64 opid);

/* accumulated over a run (all epochs) */
typedef struct {
   int  failed; char cls[32]; char msg[2000];
   u64  steps, switches, simtime, hash, faults[F_NKINDS], opp[F_NKINDS], epochs, ops, npairs, reads, writes, ndec;
   u64  checked;                                    /* oracle evaluations */
   u64  inconclusive;
   u64  statehash;                                  /* summary of the shape reached */
   u64  cov[64];                                    /* named event counters */
   fault_rec trace[SIM_MAXTRACE]; u32 ntrace; u64 bt[24]; u32 nbt;
} run_res;
extern run_res RES;
extern u8 RUN_SITES[1<<16];
void run_fail(const char *cls, const char *fmt, ...) __attribute__((format(printf,2,3)));
/* run fn in a forked child as one simulated process; returns SIM_* status */
int run_epoch(void (*fn)(void *), void *arg, u64 seed, const sched_cfg *sc, const fault_cfg *fc);
void *shared_alloc(size_t n);                       /* MAP_SHARED, at start-up */
void harness_lib_init(void);                        /* log streams into the simulator */
typedef struct { const char *name; void (*init)(void); void (*run)(void); const char **covnames; } harness;
extern harness *HARNESSES[64];
void harness_register(harness *h);
#define REGISTER_HARNESS(h) static void __attribute__((constructor)) reg_##h(void){ harness_register(&h); }
void raw_free(void*); void *raw_malloc(size_t n);
#endif
