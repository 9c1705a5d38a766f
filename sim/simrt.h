/* Deterministic simulation runtime. See DESIGN.md. */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef int64_t i64;

/* ---------- PRNG (splitmix / xoshiro) ---------- */
typedef struct { u64 s[2]; } rng_t;
void rng_seed(rng_t *r, u64 seed, u64 stream);
u64  rng_next(rng_t *r);
u64  rng_below(rng_t *r, u64 n);              /* [0,n) */
u64  rng_range(rng_t *r, u64 lo, u64 hi);     /* [lo,hi] */
u64  rng_logu(rng_t *r, u64 lo, u64 hi);      /* log-uniform in [lo,hi] */
int  rng_chance(rng_t *r, double p);
u64  mix64(u64 x);
u64  hash2(u64 a, u64 b);
u64  hash3(u64 a, u64 b, u64 c);

/* ---------- faults ---------- */
enum fault_kind {
   F_READ_EIO, F_WRITE_EIO,            /* synchronous pread/pwrite fails */
   F_READ_SHORT, F_WRITE_SHORT,        /* synchronous short transfer */
   F_AREAD_EIO, F_AWRITE_EIO,          /* asynchronous completion with error */
   F_AREAD_SHORT, F_AWRITE_SHORT,      /* asynchronous short transfer */
   F_SUBMIT_EAGAIN,                    /* io_submit refuses */
   F_GETEVENTS_EINTR,                  /* io_getevents interrupted */
   F_IO_STALL,                         /* a request takes very long */
   F_IO_REORDER,                       /* completion overtakes an older one (counted) */
   F_TORN,                             /* write torn by a crash */
   F_LOST,                             /* in-flight write lost by a crash */
   F_CRASH,                            /* process crash */
   F_MALLOC, F_MMAP, F_OPEN, F_FSTAT, F_FALLOCATE, F_IO_SETUP, F_THREAD_CREATE,
   F_SHMGET, F_SHMAT, F_MUTEX_INIT,
   F_SPURIOUS_WAKE,                    /* condition variable wakes for nothing */
   F_THREAD_STALL,                     /* a thread is descheduled for long */
   F_CLOCK_JUMP,                       /* wall clock jumps */
   F_DISK_FULL,                        /* counted by harness: small device */
   F_NKINDS
};
extern const char *fault_name[F_NKINDS];

typedef struct {
   double prob[F_NKINDS];         /* probability at each opportunity */
   i64    nth[F_NKINDS];          /* inject exactly at the nth opportunity (0-based), -1 none */
   u64    count_limit;            /* at most so many faults of the probabilistic kinds */
   int    enabled;                /* master switch (harness toggles by phase) */
} fault_cfg;

/* ---------- scheduler parameters ---------- */
enum { SM_RANDOM, SM_PCT, SM_STALL, SM_RR, SM_NMODES };
typedef struct {
   int  mode;
   u64  qmin, qmax;               /* slice length range (log-uniform), in cost units */
   u32  atomic_cost;              /* cost of an atomic op in budget units */
   u64  pct_mean;                 /* mean distance of priority change points */
   u64  stall_mean;               /* mean distance of stalls */
   u64  stall_max;                /* longest stall */
   u64  io_lat_min, io_lat_max;   /* I/O latency, in ns */
   double io_stall_prob;
   double spurious_prob;
} sched_cfg;

/* ---------- shared result block (MAP_SHARED) ---------- */
#define SIM_ERRBUF 6000
#define SIM_MAXTRACE 512
#define SIM_MAXDEC (1u<<22)
enum { SIM_OK=0, SIM_CRASHED=1, SIM_ABORT=2, SIM_SEGV=3, SIM_DEADLOCK=4, SIM_HANG=5,
       SIM_MEM=6, SIM_USER=7, SIM_INTERNAL=8, SIM_STEPLIMIT=9, SIM_EXIT=10, SIM_TIMEOUT=11 };
extern const char *sim_status_name[];
typedef struct { u32 kind; u32 seq; u64 step; u64 info; } fault_rec;
typedef struct { u8 tid; u8 why; u16 pad; u32 quantum; } sched_dec;
typedef struct {
   volatile int status;
   char  msg[1200];               /* message of the first failure */
   char  err[SIM_ERRBUF]; u32 errlen;
   u64   steps, switches, simtime_ns, yields;
   u64   hash;                    /* hash over all scheduling, I/O and fault events */
   u64   faults[F_NKINDS];
   u64   opportunities[F_NKINDS];
   fault_rec trace[SIM_MAXTRACE]; u32 ntrace;
   u64   io_reads, io_writes, io_areads, io_awrites;
   u64   bt[24]; u32 nbt;          /* stack of the failing thread */
   u32   ndec;                    /* scheduling decisions recorded */
   u8    sitemap[1<<16];          /* preemption-site pair coverage */
   u64   npairs;
   sched_dec dec[SIM_MAXDEC];
} sim_shared;
extern sim_shared *SH;

/* ---------- control ---------- */
void sim_global_init(void);                       /* once per process */
void sim_child_init(u64 seed, const sched_cfg *sc, const fault_cfg *fc); /* in the forked child */
int  sim_spawn(void (*fn)(void *), void *arg, int client); /* creates a fiber */
void sim_run(void);                                /* run until every fiber is done */
void sim_join_clients(void);
void sim_fail(int status, const char *fmt, ...) __attribute__((noreturn, format(printf,2,3)));
void sim_fail_main(int status, const char *fmt, ...) __attribute__((format(printf,2,3)));
int  sim_in_sim(void);
u64  sim_step(void);                               /* current step count */
u64  sim_now(void);                                /* simulated ns */
int  sim_self(void);
void sim_yield(void);
void sim_sched_point(void);
void sim_progress(void);                           /* an operation completed */
void sim_set_fair(int on);                         /* fair scheduling, quick I/O, no faults */
void sim_set_nopreempt(int on);
void sim_set_dirty_note(void (*fn)(void));
extern fault_cfg sim_faults;
extern sched_cfg sim_sched;
int  fault_roll(int kind, u64 info);
extern int sim_fault_fiber;                        /* only this fiber's calls fail (-1: any) */
void sim_hash_mix(u64 v);
void sim_default_sched(sched_cfg *sc, rng_t *r);
void sim_default_faults(fault_cfg *fc);
extern u64 sim_hang_limit;                         /* steps without progress => fair mode, then hang */
extern u64 sim_step_limit;
extern u32 sim_replay_n;                           /* explicit schedule prefix */
extern sched_dec *sim_replay_dec;
extern u32 sim_dec_limit;                          /* decisions after which the default policy is used (0=none) */
int sim_fiber_count(void);
void sim_exit_ok(void) __attribute__((noreturn)); /* ends the simulated process in order */
void sim_crash_now(void) __attribute__((noreturn));
extern u64 sim_crash_step;                         /* crash when step reaches (0=off) */
extern i64 sim_crash_write;                        /* crash at the nth write event (-1 off) */
u64 sim_arena_live(u64 *nblocks);                  /* live heap bytes */
extern int sim_fds_open, sim_mmaps_open, sim_aio_ctx_open, sim_threads_live, sim_shm_open;

/* ---------- simulated disk ---------- */
#define DISK_MAX (20ull<<30)
typedef struct { u64 off; u32 len; u64 t_issue, t_done; u64 data; u32 sync; u32 seq; } wlog_rec; /* data: offset in wlog buffer */
typedef struct {
   u64 size; int exists;
   u64 hiwater;
   int journal_on; u64 njournal; u64 journal_bytes; u64 next_seq;
} disk_hdr;
extern u8 *DISK; extern disk_hdr *DH;
#define WLOG_MAX 200000
#define WLOG_BYTES (768ull<<20)
extern wlog_rec *WLOG; extern u8 *WLOGDATA;
void disk_reset(void);
u64 disk_write_events(void);
u64 disk_pending(void);
#endif
