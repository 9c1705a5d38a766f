/* Common ground of the component harnesses: one simulated process per session, seeded clients. */
#ifndef UNIT_H
#define UNIT_H
#include "platform.h"
#include "allocator.h"
#include "rc_allocator.h"
#include "cache.h"
#include "clockcache.h"
#include "task.h"
#include "util.h"
#undef min
#undef max
#include "harness.h"
#include <string.h>
#include <stdlib.h>
#define UCOV 24
typedef struct { u64 ops, cov[UCOV], checks, state; int done, sess; u64 ev; u8 blob[1<<20]; } ush;
extern ush *US;
void unit_init(void);
/* runs fn as session `sess`; 1 if it finished well, 2 if it was killed and that is expected */
extern int unit_crash_ok;
int unit_session(void (*fn)(void *), int sess, const sched_cfg *sc, const fault_cfg *fc);
void unit_sched(int sess, sched_cfg *sc, fault_cfg *fc, int fine);
typedef struct { void (*fn)(int); int t; int id; } ucl;
void unit_clients(void (*fn)(int), int n);        /* spawn n clients and wait for them */
#define UPROF(p) (!strcmp(OPT.profile,p))
#define UCHK(c,...) do{ US->checks++; if(!(c)) sim_fail(SIM_USER,__VA_ARGS__); }while(0)
#define RND(n) rng_below(r,(n))
static inline rng_t op_rng(u64 id){ rng_t r; rng_seed(&r,hash2(OPT.seed,id),0xc11e); return r; }
/* I/O, allocator, task system, cache */
typedef struct { platform_heap_id hid; io_config iocfg; allocator_config alcfg; clockcache_config cccfg; task_system_config tscfg; platform_io_handle io; rc_allocator al; clockcache cc; task_system *ts; int mounted, have_cache; } uenv;
void uenv_up(uenv *e, u64 disk_bytes, u64 cache_bytes, int nmt, int nnorm, u64 qdepth, int stats, int mount, u64 scratch);
void uenv_down(uenv *e, int keep);                /* keep: write the reference counts (the caller flushed the cache) */
void unit_leakcheck(void);
static inline u64 fill_word(u64 tag,u64 i){ return hash2(tag,i)|1; }
#endif
