#ifndef SIMINT_H
#define SIMINT_H
#include "simrt.h"
#include <pthread.h>
typedef int32_t i32;
extern rng_t sim_r_io; extern u64 now_ns; extern long sim_budget;
extern i64 sim_clock_skew;
void disk_global_init(void); void disk_child_init(void); void disk_poll(void); u64 disk_next_due(void); void disk_hasten(void); void disk_crash(void);
int sim_is_fair(void); void fault_note(int kind,u64 info);
int sim_block(void*obj,u64 until); void sim_wake_all(void*obj); void sim_spin_yield(void);
void sim_wait_fiber(int i);
void sim_pthread_mutex_t_release(pthread_mutex_t*m);
u64 sim_realtime(void);
FILE *sim_err_stream(void);
void *arena_alloc(u64 align,u64 n,int fill); void arena_free(void*p);
int sim_heap_leaks(char*out,size_t n);
#endif
