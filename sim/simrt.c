// Deterministic simulation runtime: fibers, seeded scheduler, simulated clock,
// pthread/malloc/mmap/shm replacements and the __tsan_* entry points that make
// every memory access of the code under test a possible preemption point.
#include "simrt.h"
#include "simint.h"
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <time.h>
#include <unistd.h>
#include <execinfo.h>

const char *fault_name[F_NKINDS] = {
 "read_eio","write_eio","read_short","write_short","async_read_eio","async_write_eio",
 "async_read_short","async_write_short","submit_eagain","getevents_eintr","io_stall","io_reorder",
 "torn_write","lost_write","crash","malloc_fail","mmap_fail","open_fail","fstat_fail","fallocate_fail",
 "io_setup_fail","thread_create_fail","shmget_fail","shmat_fail","mutex_init_fail","spurious_wakeup",
 "thread_stall","clock_jump","disk_full"};
const char *sim_status_name[] = {"ok","crashed","abort","segv","deadlock","hang","memory-error",
 "oracle","internal","step-limit","exit","timeout"};

/* ------------------------------------------------------------------ PRNG */
u64 mix64(u64 x){ x+=0x9e3779b97f4a7c15ull; x=(x^(x>>30))*0xbf58476d1ce4e5b9ull; x=(x^(x>>27))*0x94d049bb133111ebull; return x^(x>>31);}
u64 hash2(u64 a,u64 b){ return mix64(mix64(a)^(b*0xd6e8feb86659fd93ull+0x2545F4914F6CDD1Dull)); }
u64 hash3(u64 a,u64 b,u64 c){ return hash2(hash2(a,b),c); }
void rng_seed(rng_t*r,u64 seed,u64 stream){ r->s[0]=hash2(seed,stream*2+1); r->s[1]=hash2(seed^0x5555,stream*2+7)|1; }
u64 rng_next(rng_t*r){ u64 a=r->s[0],b=r->s[1]; r->s[0]=b; a^=a<<23; r->s[1]=a^b^(a>>18)^(b>>5); return r->s[1]+b; }
u64 rng_below(rng_t*r,u64 n){ return n<=1?0:(u64)(((__uint128_t)rng_next(r)*n)>>64); }
u64 rng_range(rng_t*r,u64 lo,u64 hi){ return lo+rng_below(r,hi-lo+1); }
u64 rng_logu(rng_t*r,u64 lo,u64 hi){ /* integer log-uniform: no libm, fully deterministic */
  if(lo<1)lo=1; if(hi<=lo) return lo;
  int bl=63-__builtin_clzll(lo), bh=63-__builtin_clzll(hi);
  for(int k=0;k<64;k++){ int b=(int)rng_range(r,bl,bh); u64 v=(1ull<<b)+rng_below(r,1ull<<b); if(v>=lo&&v<=hi) return v; }
  return lo; }
int rng_chance(rng_t*r,double p){ if(p<=0) return 0; return (double)(rng_next(r)>>11)*(1.0/9007199254740992.0) < p; }

/* ------------------------------------------------------------------ state */
sim_shared *SH;
fault_cfg sim_faults; sched_cfg sim_sched;
u64 sim_hang_limit=200000000ull, sim_step_limit=4000000000ull;
u32 sim_replay_n; sched_dec *sim_replay_dec; u32 sim_dec_limit;
u64 sim_crash_step; i64 sim_crash_write=-1;
int sim_fds_open, sim_mmaps_open, sim_aio_ctx_open, sim_threads_live, sim_shm_open;

static rng_t r_sched, r_misc, r_fault; rng_t sim_r_io;
enum { FB_FREE, FB_RUN, FB_BLOCK, FB_DONE };
#define MAXF 160
#define STACKSZ (768*1024)
#define TLSMAX 512
typedef struct fiber {
   void *sp; int state; int client; int detached; int joined; int id;
   void (*fn)(void*); void *arg; void *(*pfn)(void*); void *ret;
   void *wait_obj; u64 wake_at; int woken;
   u64 stall_until; i64 prio; u32 pauses; int saved_errno;
   u8 tls[TLSMAX];
} fiber;
static fiber F[MAXF]; static int nf; static int cur=-1; static int nlive;
static void *main_sp; static u8 main_tls[TLSMAX]; static int main_errno;
static u8 *tls_addr; static size_t tls_len;
static u8 *stack_base;
#define STACKS_ADDR ((void*)0x210000000000ull)
static u64 base_steps;      /* steps before this slice */
long sim_budget; static long slice_q; /* remaining / given */
u64 now_ns; static int in_sim; static int fair_mode; static int nopreempt;
static u64 last_progress; static i64 prio_low; static u64 next_pct, next_stall; static u32 spin_run;
static u32 slice_pauses; static u32 cost_atomic=1; static int nstalled; static int rr_last; static int hang_stage;
i64 sim_clock_skew;

int sim_in_sim(void){return in_sim;}
u64 sim_step(void){ return base_steps + (u64)(slice_q - sim_budget); }
u64 sim_now(void){ return now_ns + (u64)(slice_q - sim_budget); }
int sim_self(void){ return cur; }
int sim_fiber_count(void){ return nlive; }
void sim_hash_mix(u64 v){ SH->hash = hash2(SH->hash, v); }
void sim_progress(void){ last_progress = sim_step(); hang_stage=0; }
void sim_set_fair(int on){ fair_mode=on; if(on){ disk_hasten(); for(int i=0;i<nf;i++) F[i].stall_until=0; nstalled=0; } }
void sim_set_nopreempt(int on){ nopreempt=on; }
int sim_is_fair(void){ return fair_mode; }

static void take_bt(u64 fp,u64 pc){ u32 n=0; if(pc) SH->bt[n++]=pc; if(cur>=0){ u64 lo=(u64)stack_base+(u64)cur*(STACKSZ+4096*4)+4096*4,hi=lo+STACKSZ; while(n<24&&fp>=lo&&fp+16<=hi){ u64 ra=((u64*)fp)[1]; if(ra<0x400000) break; SH->bt[n++]=ra; u64 nx=*(u64*)fp; if(nx<=fp) break; fp=nx; } } SH->nbt=n; }
static void finish(int status) __attribute__((noreturn));
static void finish(int status){
   SH->status=status; SH->steps=sim_step(); SH->simtime_ns=sim_now();
   fflush(NULL); _exit(status?40+status:0);
}
void sim_fail_main(int status,const char*fmt,...){ va_list ap; va_start(ap,fmt); if(!SH->msg[0]) vsnprintf(SH->msg,sizeof SH->msg,fmt,ap); va_end(ap); SH->status=status; }
void sim_fail(int status,const char*fmt,...){ va_list ap; va_start(ap,fmt); vsnprintf(SH->msg,sizeof SH->msg,fmt,ap); va_end(ap); take_bt((u64)__builtin_frame_address(0),0); finish(status); }
void sim_exit_ok(void){ finish(SIM_OK); }
void sim_crash_now(void){ SH->faults[F_CRASH]++; disk_crash(); sim_hash_mix(0xC4A5); finish(SIM_CRASHED); }

int sim_fault_fiber=-1;
int fault_roll(int kind,u64 info){
   u64 opp=SH->opportunities[kind]++;
   int hit=0;
   if(sim_faults.enabled && !fair_mode && (sim_fault_fiber<0||sim_fault_fiber==cur||kind==F_SPURIOUS_WAKE||kind==F_THREAD_STALL)){
      if(sim_faults.nth[kind]>=0 && (u64)sim_faults.nth[kind]==opp) hit=1;
      else if(sim_faults.prob[kind]>0){ int c=rng_chance(&r_fault,sim_faults.prob[kind]); if(c && sim_faults.count_limit>0){ sim_faults.count_limit--; hit=1; } }
   }
   if(hit){ SH->faults[kind]++; if(SH->ntrace<SIM_MAXTRACE){ fault_rec*t=&SH->trace[SH->ntrace++]; t->kind=kind; t->seq=opp; t->step=sim_step(); t->info=info; } sim_hash_mix(0xFA000000u+kind); sim_hash_mix(opp); }
   return hit;
}
void fault_note(int kind,u64 info){ SH->faults[kind]++; if(SH->ntrace<SIM_MAXTRACE){ fault_rec*t=&SH->trace[SH->ntrace++]; t->kind=kind; t->seq=0; t->step=sim_step(); t->info=info; } }

/* ------------------------------------------------------------------ fibers */
__asm__(".text\n.globl sim_swap\n.type sim_swap,@function\nsim_swap:\n"
" pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
" movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
" popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n.size sim_swap,.-sim_swap\n");
void sim_swap(void **save,void *to);

static int phdr_cb(struct dl_phdr_info*i,size_t s,void*d){ (void)s;(void)d;
   for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_TLS){ tls_addr=i->dlpi_tls_data; tls_len=i->dlpi_phdr[k].p_memsz; }
   return 1; /* first object = the executable */ }
static u8 tls_init_img[TLSMAX];

static void switch_to(int to){
   int from=cur; if(from==to) return;
   if(from>=0){ memcpy(F[from].tls,tls_addr,tls_len); F[from].saved_errno=errno; } else { memcpy(main_tls,tls_addr,tls_len); main_errno=errno; }
   cur=to; SH->switches++;
   if(to>=0){ memcpy(tls_addr,F[to].tls,tls_len); errno=F[to].saved_errno; } else { memcpy(tls_addr,main_tls,tls_len); errno=main_errno; }
   sim_swap(from>=0?&F[from].sp:&main_sp, to>=0?F[to].sp:main_sp);
}
static void resched(int why,u64 site);
static void fiber_exit(void) __attribute__((noreturn));
static void fiber_exit(void){
   fiber*f=&F[cur]; f->state=FB_DONE; nlive--; if(f->pfn) sim_threads_live--;
   for(int i=0;i<nf;i++) if(F[i].state==FB_BLOCK && F[i].wait_obj==f){ F[i].state=FB_RUN; F[i].wait_obj=0; F[i].woken=1; }
   resched(9,0); __builtin_unreachable();
}
static void fiber_main(void){ fiber*f=&F[cur]; if(f->pfn) f->ret=f->pfn(f->arg); else f->fn(f->arg); fiber_exit(); }
static int new_fiber(void){
   int i; for(i=0;i<nf;i++) if(F[i].state==FB_DONE && (F[i].joined||F[i].detached) && i!=cur) break; /* reuse */
   if(i==nf){ if(nf>=MAXF) return -1; nf++; }
   fiber*f=&F[i]; memset(f,0,sizeof *f); f->id=i; f->state=FB_RUN; memcpy(f->tls,tls_init_img,tls_len);
   u8*stk=stack_base+(u64)i*(STACKSZ+4096*4)+4096*4;
   memset(stk+STACKSZ-65536,0,65536);
   u64*sp=(u64*)(stk+STACKSZ-64); *--sp=0; *--sp=(u64)fiber_main; for(int k=0;k<6;k++) *--sp=0; f->sp=sp;
   f->prio=(i64)rng_below(&r_sched,1000000); nlive++; return i;
}
int sim_spawn(void(*fn)(void*),void*arg,int client){ int i=new_fiber(); if(i<0) sim_fail(SIM_INTERNAL,"too many fibers"); F[i].fn=fn;F[i].arg=arg;F[i].client=client; F[i].detached=client?0:1; sim_hash_mix(0xF1B0+i); return i; }
/* waits for a given fiber from another fiber */
void sim_wait_fiber(int i){ while(F[i].state!=FB_DONE){ F[cur].state=FB_BLOCK; F[cur].wait_obj=&F[i]; resched(8,0);} F[i].joined=1; }

static void release_stalls(void){ for(int i=0;i<nf;i++) F[i].stall_until=0; nstalled=0; }
static void wake_sleepers(void){ for(int i=0;i<nf;i++) if(F[i].state==FB_BLOCK && F[i].wake_at && F[i].wake_at<=now_ns){ F[i].state=FB_RUN; F[i].wake_at=0; F[i].wait_obj=0; F[i].woken=2; } }
static u64 next_wake(void){ u64 m=0; for(int i=0;i<nf;i++) if(F[i].state==FB_BLOCK&&F[i].wake_at&&(!m||F[i].wake_at<m)) m=F[i].wake_at; return m; }

static void describe_fibers(char*b,size_t n){ size_t o=0; for(int i=0;i<nf&&o+60<n;i++) if(F[i].state!=FB_DONE&&F[i].state!=FB_FREE) o+=snprintf(b+o,n-o," [f%d %s%s wait=%p]",i,F[i].state==FB_RUN?"run":"block",F[i].client?" client":"",F[i].wait_obj); }

static void account(void){ u64 used=(u64)(slice_q-sim_budget); base_steps+=used; now_ns+=used; slice_q=sim_budget=0; }

/* why: 0 slice over, 1 pause, 2 blocked, 3 explicit yield, 8 join, 9 exit */
static void resched(int why,u64 site){
   fiber*me=&F[cur];
   u64 used=(u64)(slice_q-sim_budget);
   if(why!=9 && nopreempt && me->state==FB_RUN){ account(); slice_q=sim_budget=1<<20; return; }
   account(); now_ns+=3; 
   SH->yields+= (why==1);
   if(sim_crash_step && base_steps>=sim_crash_step) sim_crash_now();
   if(base_steps>sim_step_limit) sim_fail(SIM_STEPLIMIT,"step limit %llu reached",(unsigned long long)sim_step_limit);
   if(base_steps-last_progress>sim_hang_limit && !hang_stage){ hang_stage=1; fair_mode=1; release_stalls(); disk_hasten(); }
   if(hang_stage && base_steps-last_progress>4*sim_hang_limit){ char b[900]; b[0]=0; describe_fibers(b,sizeof b); sim_fail(SIM_HANG,"no operation completed for %llu steps under a fair schedule:%s",(unsigned long long)(base_steps-last_progress),b); }
   /* spinning detection */
   if(why==1 && used<400) spin_run++; else if(why==0 || used>=400) spin_run=0;
   disk_poll();
   wake_sleepers();
   int nrun=0; for(int i=0;i<nf;i++) nrun+=F[i].state==FB_RUN;
   if(spin_run>(u32)(24*(nrun+1))){ /* everybody spins: let time pass */
      release_stalls(); u64 a=disk_next_due(), b=next_wake(); u64 t=a&&(!b||a<b)?a:b; if(t>now_ns){ now_ns=t; disk_poll(); wake_sleepers(); } spin_run=0;
      nrun=0; for(int i=0;i<nf;i++) nrun+=F[i].state==FB_RUN; }
   while(nrun==0){
      if(nlive==0){ switch_to(-1); __builtin_unreachable(); }
      u64 t=next_wake();
      if(!t){ char b[900]; b[0]=0; describe_fibers(b,sizeof b); sim_fail(SIM_DEADLOCK,"all threads blocked:%s",b); }
      if(t>now_ns) now_ns=t; 
      disk_poll(); wake_sleepers(); for(int i=0;i<nf;i++) nrun+=F[i].state==FB_RUN;
   }
   int pick=-1; u64 q; u32 di=SH->ndec;
   int mode=fair_mode?SM_RANDOM:sim_sched.mode; u64 qmin=sim_sched.qmin,qmax=sim_sched.qmax;
   if(fair_mode){ qmin=20; qmax=600; } slice_pauses=0;
   if(sim_replay_dec && di<sim_replay_n){
      pick=sim_replay_dec[di].tid; q=sim_replay_dec[di].quantum;
      if(pick>=nf||F[pick].state!=FB_RUN){ pick=-1; }
   } else if((sim_dec_limit && di>=sim_dec_limit)||sim_replay_dec){ mode=SM_RR; qmin=qmax=20000; }
   if(pick<0){
      /* stalls as schedule faults */
      if(mode==SM_STALL && why!=9 && base_steps>=next_stall){
         next_stall=base_steps+1+rng_below(&r_sched,2*sim_sched.stall_mean);
         if(me->state==FB_RUN && nrun>1){ me->stall_until=base_steps+rng_logu(&r_sched,256,sim_sched.stall_max); nstalled++; SH->faults[F_THREAD_STALL]++; }
      }
      int el[MAXF],ne=0;
      for(int i=0;i<nf;i++) if(F[i].state==FB_RUN){ if(F[i].stall_until>base_steps) continue; if(F[i].stall_until){F[i].stall_until=0; if(nstalled)nstalled--; } if(why==1&&i==cur&&nrun>1&&mode!=SM_PCT) continue; el[ne++]=i; }
      if(ne==0){ /* only stalled or myself */
         if(why==1&&me->state==FB_RUN&&!me->stall_until){ el[ne++]=cur; }
         else { int b=-1; for(int i=0;i<nf;i++) if(F[i].state==FB_RUN&&(b<0||F[i].stall_until<F[b].stall_until)) b=i; F[b].stall_until=0; if(nstalled)nstalled--; el[ne++]=b; } }
      switch(mode){
      case SM_PCT:
         if(why==1||why==3) me->prio=--prio_low;
         if(base_steps>=next_pct){ next_pct=base_steps+1+rng_below(&r_sched,2*sim_sched.pct_mean); me->prio=--prio_low; }
         pick=el[0]; for(int i=1;i<ne;i++) if(F[el[i]].prio>F[pick].prio) pick=el[i];
         break;
      case SM_RR: { pick=-1; for(int i=0;i<ne;i++) if(el[i]>rr_last){ pick=el[i]; break; } if(pick<0) pick=el[0]; rr_last=pick; break; }
      default: pick=el[rng_below(&r_sched,ne)]; 
      }
      q = mode==SM_RR? qmax : mode==SM_PCT? 1+rng_below(&r_sched,2*sim_sched.pct_mean) : rng_logu(&r_sched,qmin,qmax);
   }
   if(SH->ndec<SIM_MAXDEC){ sched_dec*d=&SH->dec[SH->ndec]; d->tid=pick; d->why=why; d->quantum=(u32)q; }
   SH->ndec++;
   if(sim_crash_step && base_steps+q>sim_crash_step) q=sim_crash_step>base_steps?sim_crash_step-base_steps:1;
   { u64 due=disk_next_due(); if(due && due>now_ns && due-now_ns<q) q=due-now_ns; }
   if(q<1) q=1;
   slice_q=sim_budget=(long)q;
   sim_hash_mix(((u64)pick<<40)^base_steps);
   if(pick!=cur){
      static u64 lastsite[MAXF]; lastsite[cur]=site; u64 h=hash2(site,lastsite[pick]); u32 idx=h&0xffff; u8 bit=1; if(!SH->sitemap[idx]){SH->sitemap[idx]=bit; SH->npairs++;}
      if(why==9){ /* never return */ cur=cur; }
      switch_to(pick);
   }
}
static void __attribute__((noinline)) slow(u64 site){ if(!in_sim||cur<0){ sim_budget=1<<30; slice_q=1<<30; return; } resched(fair_mode&&slice_pauses*8>(u64)slice_q?1:0,site); }
#define TICK(c) do{ if(__builtin_expect((sim_budget-=(c))<=0,0)) slow((u64)__builtin_return_address(0)); }while(0)
void sim_sched_point(void){ if(in_sim&&cur>=0){ sim_budget-=cost_atomic; if(sim_budget<=0) slow((u64)__builtin_return_address(0)); } }
void sim_yield(void){ if(in_sim&&cur>=0) resched(3,(u64)__builtin_return_address(0)); }
static void spin_yield(u64 site){ if(in_sim&&cur>=0) resched(1,site); }
void sim_spin_yield(void){ spin_yield((u64)__builtin_return_address(0)); }
void sim_pause(void){ if(!in_sim||cur<0) return; if(fair_mode){ /* model of truly parallel spinning: a pause is just a little time */ sim_budget-=2; slice_pauses++; if(sim_budget<=0) spin_yield((u64)__builtin_return_address(0)); return; } sim_budget-=4; if(++F[cur].pauses>=4||sim_budget<=0){ F[cur].pauses=0; spin_yield((u64)__builtin_return_address(0)); } }
/* block the current fiber on obj until woken (or until ns if nonzero) */
int sim_block(void*obj,u64 until){ fiber*f=&F[cur]; f->state=FB_BLOCK; f->wait_obj=obj; f->wake_at=until; f->woken=0; resched(2,(u64)__builtin_return_address(0)); return F[cur].woken; }
void sim_wake_all(void*obj){ for(int i=0;i<nf;i++) if(F[i].state==FB_BLOCK&&F[i].wait_obj==obj){ F[i].state=FB_RUN;F[i].wait_obj=0;F[i].wake_at=0;F[i].woken=1; } }
static int wake_one(void*obj){ int c[MAXF],n=0; for(int i=0;i<nf;i++) if(F[i].state==FB_BLOCK&&F[i].wait_obj==obj) c[n++]=i; if(!n) return 0; int k=c[rng_below(&r_misc,n)]; F[k].state=FB_RUN;F[k].wait_obj=0;F[k].wake_at=0;F[k].woken=1; return 1; }

/* ------------------------------------------------------------------ heap */
#define ARENA_BASE 0x220000000000ull
#define ARENA_SIZE (6ull<<30)
#define ARENA_SHADOW 0x228000000000ull
#define shadow ((u8*)ARENA_SHADOW)
static u64 arena_brk; static u64 live_bytes, live_blocks;
typedef struct blk { u64 size, cls; u32 magic; u32 seq; struct blk*next; u64 span; } blk; /* 64-byte header before the block */
#define NCLS 64
static blk *freeq_head[NCLS],*freeq_tail[NCLS]; static u64 freeq_bytes[NCLS];
static u64 cls_size(int c){ u64 b=64ull<<(c/2); return (c&1)?b+b/2:b; }
static int size_cls(u64 n){ int c=0; while(cls_size(c)<n) c++; return c; }
static u32 alloc_seq;
static void shadow_set(u64 a,u64 n,int live){ u64 g=(a-ARENA_BASE)>>4; if(!live){ memset(shadow+g,0,(n+15)>>4); return; } memset(shadow+g,16,n>>4); if(n&15) shadow[g+(n>>4)]=n&15; }
void *arena_alloc(u64 align,u64 n,int fill){
   if(n==0) n=1;
   int c=size_cls(n+16); u64 cs=cls_size(c); blk*b=0;
   if(align<=64 && freeq_head[c] && freeq_bytes[c]>(cs*32<(4u<<20)?cs*32:(4u<<20))){ b=freeq_head[c]; freeq_head[c]=b->next; if(!freeq_head[c]) freeq_tail[c]=0; freeq_bytes[c]-=cs; }
   else { if(arena_brk+64+cs>ARENA_SIZE) return 0; u64 pad=0; if(align>64){ u64 a=ARENA_BASE+arena_brk+64; pad=((a+align-1)&~(align-1))-a; if(pad){ if(pad<64) pad+=align; blk*f=(blk*)(ARENA_BASE+arena_brk); memset(f,0,sizeof *f); f->span=pad; arena_brk+=pad; if(arena_brk+64+cs>ARENA_SIZE) return 0; } }
      b=(blk*)(ARENA_BASE+arena_brk); b->span=64+cs; arena_brk+=64+cs; }
   b->size=n; b->cls=c; b->magic=0xB10CB10C; b->seq=++alloc_seq; b->next=0;
   u64 p=(u64)b+64; shadow_set(p,cs,0); shadow_set(p,n,1); live_bytes+=n; live_blocks++;
   if(fill) memset((void*)p,0xA6,n<(1u<<20)?n:(1u<<20));
   return (void*)p;
}
static inline int in_arena(const void*p){ return (u64)p-ARENA_BASE<ARENA_SIZE; }
static void mem_error(const char*what,const void*p,u64 n,u64 site){
   blk*b=0; char d[200]=""; /* best effort: find the block by walking */
   u64 o=0,a=(u64)p-ARENA_BASE; while(o<arena_brk){ blk*x=(blk*)(ARENA_BASE+o); if(a<o+x->span){ b=x; break; } o+=x->span; }
   if(b) snprintf(d,sizeof d,"block of %llu bytes (%s), offset %lld",(unsigned long long)b->size,b->magic==0xB10CB10C?"live":"freed",(long long)((u64)p-(u64)b-64));
   sim_fail(SIM_MEM,"heap %s of %llu bytes: %s, at pc %#llx",what,(unsigned long long)n,d,(unsigned long long)site);
}
static inline __attribute__((always_inline)) void chk(const void*p,u64 n,u64 site,const char*w){
   if(__builtin_expect((u64)p-ARENA_BASE<ARENA_SIZE,0)){ u64 a=(u64)p; u8 s=shadow[(a-ARENA_BASE)>>4]; if(__builtin_expect(s!=16,0)){ if((a&15)+n>s) mem_error(w,p,n,site); } } }
static void chk_range(const void*p,u64 n,u64 site,const char*w){ if(n&&in_arena(p)){ chk(p,1,site,w); chk((const u8*)p+n-1,1,site,w); for(u64 a=((u64)p+15)&~15ull;a+16<=(u64)p+n;a+=16) if(shadow[(a-ARENA_BASE)>>4]!=16) mem_error(w,(void*)a,16,site); } }
void arena_free(void*p){
   if(!p) return; blk*b=(blk*)((u64)p-64);
   if(b->magic!=0xB10CB10C) sim_fail(SIM_MEM,"invalid or double free of %p",p);
   b->magic=0xF4EEF4EE; live_bytes-=b->size; live_blocks--; u64 cs=cls_size(b->cls); shadow_set((u64)p,cs,0); memset(p,0xDD,b->size<65536?b->size:65536);
   b->next=0; if(freeq_tail[b->cls]) freeq_tail[b->cls]->next=b; else freeq_head[b->cls]=b; freeq_tail[b->cls]=b; freeq_bytes[b->cls]+=cs;
}
u64 sim_arena_live(u64*nb){ if(nb)*nb=live_blocks; return live_bytes; }
int sim_heap_leaks(char*out,size_t n){ size_t o=0; int k=0; u64 x=0; while(x<arena_brk){ blk*b=(blk*)(ARENA_BASE+x); if(b->magic==0xB10CB10C){ k++; if(o+40<n) o+=snprintf(out+o,n-o," #%u:%llu",b->seq,(unsigned long long)b->size); } x+=b->span;} return k; }
static u32 leak_mark; void sim_heap_mark(void){ leak_mark=alloc_seq; } 

void *sim_aligned_alloc(size_t al,size_t n){ TICK(2); if(fault_roll(F_MALLOC,n)){errno=ENOMEM;return 0;} return arena_alloc(al,n,1); }
void *sim_malloc(size_t n){ TICK(2); if(fault_roll(F_MALLOC,n)){errno=ENOMEM;return 0;} return arena_alloc(16,n,1); }
void *sim_calloc(size_t a,size_t b){ TICK(2); if(fault_roll(F_MALLOC,a*b)){errno=ENOMEM;return 0;} void*p=arena_alloc(16,a*b,0); if(p) memset(p,0,a*b); return p; }
void sim_free(void*p){ TICK(2); if(p&&!in_arena(p)){ free(p); return; } arena_free(p); }
void *sim_realloc(void*p,size_t n){ TICK(2); if(!p) return sim_malloc(n); if(!in_arena(p)) return realloc(p,n); if(n==0){ arena_free(p); return 0; }
   if(fault_roll(F_MALLOC,n)){errno=ENOMEM;return 0;} void*q=arena_alloc(16,n,1); if(!q) return 0; blk*b=(blk*)((u64)p-64); memcpy(q,p,b->size<n?b->size:n); arena_free(p); return q; }
int sim_posix_memalign(void**o,size_t al,size_t n){ void*p=sim_aligned_alloc(al,n); if(!p) return ENOMEM; *o=p; return 0; }
char *sim_strdup(const char*s){ size_t n=strlen(s)+1; char*p=sim_malloc(n); if(p) memcpy(p,s,n); return p; }

static void copy_chunks(void*d,const void*s,size_t n,int back){
   /* large copies are divisible: another thread may run between the pieces */
   if(!back){ size_t o=0; while(o<n){ size_t k=n-o; if(in_sim&&cur>=0){ i64 room=(sim_budget>0?sim_budget:0)*16+16; if((i64)k>room) k=room; sim_budget-=k/16+1; } memmove((u8*)d+o,(const u8*)s+o,k); o+=k; if(o<n||sim_budget<=0) if(sim_budget<=0) slow((u64)__builtin_return_address(0)); } }
   else { memmove(d,s,n); TICK((long)(n/16+1)); }
}
void *sim_memcpy(void*d,const void*s,size_t n){ u64 site=(u64)__builtin_return_address(0); chk_range(s,n,site,"read"); chk_range(d,n,site,"write"); copy_chunks(d,s,n,0); return d; }
void *sim_memmove(void*d,const void*s,size_t n){ u64 site=(u64)__builtin_return_address(0); chk_range(s,n,site,"read"); chk_range(d,n,site,"write"); copy_chunks(d,s,n,(u8*)d<(u8*)s+n&&(u8*)s<(u8*)d+n); return d; }
void *sim_memset(void*d,int c,size_t n){ chk_range(d,n,(u64)__builtin_return_address(0),"write"); TICK((long)(n/32+1)); return memset(d,c,n); }
int sim_memcmp(const void*a,const void*b,size_t n){ u64 site=(u64)__builtin_return_address(0); chk_range(a,n,site,"read"); chk_range(b,n,site,"read"); TICK((long)(n/32+1)); return memcmp(a,b,n); }

/* ------------------------------------------------------------------ mmap / shm */
#define MMAP_BASE 0x230000000000ull
static u64 mmap_brk; 
void *sim_mmap(void*a,size_t n,int prot,int flags,int fd,off_t off){ (void)a;(void)fd;(void)off; TICK(4); if(fault_roll(F_MMAP,n)){ errno=ENOMEM; return MAP_FAILED; }
   u64 len=(n+4095)&~4095ull; void*p=mmap((void*)(MMAP_BASE+mmap_brk),len,prot,MAP_FIXED|MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|(flags&0),-1,0); if(p==MAP_FAILED) sim_fail(SIM_INTERNAL,"mmap failed"); mmap_brk+=len+65536; sim_mmaps_open++; return p; }
int sim_munmap(void*p,size_t n){ TICK(4); if(p==0||((u64)p&4095)){ errno=EINVAL; return -1; } sim_mmaps_open--; munmap(p,(n+4095)&~4095ull); mmap((void*)p,(n+4095)&~4095ull,PROT_NONE,MAP_FIXED|MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); return 0; }
int sim_mlock(const void*p,size_t n){ (void)p;(void)n; return 0; }
#define MAXSHM 64
static struct { u64 addr,size; int used,att,rm; } SHM[MAXSHM];
int sim_shmget(key_t k,size_t n,int fl){ (void)k;(void)fl; TICK(4); if(fault_roll(F_SHMGET,n)){errno=ENOSPC;return -1;} for(int i=1;i<MAXSHM;i++) if(!SHM[i].used){ SHM[i].used=1;SHM[i].size=n;SHM[i].att=0;SHM[i].rm=0; sim_shm_open++; u64 len=(n+4095)&~4095ull; SHM[i].addr=MMAP_BASE+mmap_brk; if(mmap((void*)SHM[i].addr,len,PROT_READ|PROT_WRITE,MAP_FIXED|MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0)==MAP_FAILED) return -1; mmap_brk+=len+65536; return i; } errno=ENOSPC; return -1; }
static void shm_gone(int i){ SHM[i].used=0; sim_shm_open--; mmap((void*)SHM[i].addr,(SHM[i].size+4095)&~4095ull,PROT_NONE,MAP_FIXED|MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); }
void *sim_shmat(int i,const void*a,int fl){ (void)a;(void)fl; TICK(4); if(i<1||i>=MAXSHM||!SHM[i].used){errno=EINVAL;return(void*)-1;} if(fault_roll(F_SHMAT,i)){errno=ENOMEM;return(void*)-1;} SHM[i].att++; return (void*)SHM[i].addr; }
int sim_shmdt(const void*a){ for(int i=1;i<MAXSHM;i++) if(SHM[i].used&&SHM[i].addr==(u64)a&&SHM[i].att){ SHM[i].att--; if(SHM[i].rm&&!SHM[i].att) shm_gone(i); return 0; } errno=EINVAL; return -1; }
int sim_shmctl(int i,int cmd,struct shmid_ds*b){ if(i<1||i>=MAXSHM||!SHM[i].used){errno=EINVAL;return -1;} if(cmd==IPC_RMID){ SHM[i].rm=1; if(!SHM[i].att) shm_gone(i); } else if(cmd==IPC_STAT&&b){ memset(b,0,sizeof *b); b->shm_segsz=SHM[i].size; b->shm_nattch=SHM[i].att; } return 0; }

/* ------------------------------------------------------------------ threads */
typedef struct { u32 magic; i32 owner; u32 cnt; } smutex;
#define MUTEX_DEAD 0xdeadb10cu
static void mutex_alive(smutex*s){ if(s->magic==MUTEX_DEAD) sim_fail(SIM_MEM,"use of a mutex after pthread_mutex_destroy"); }
pthread_t sim_pthread_self(void){ return (pthread_t)(cur+1); }
int sim_pthread_create(pthread_t*t,const pthread_attr_t*a,void*(*fn)(void*),void*arg){
   TICK(8); if(fault_roll(F_THREAD_CREATE,0)) return EAGAIN; int i=new_fiber(); if(i<0) return EAGAIN; F[i].pfn=fn;F[i].arg=arg; int ds=0; if(a) pthread_attr_getdetachstate(a,&ds); F[i].detached=(a&&ds==PTHREAD_CREATE_DETACHED); sim_threads_live++; *t=(pthread_t)(i+1); sim_hash_mix(0x7C+i); TICK(8); return 0; }
int sim_pthread_join(pthread_t t,void**r){ int i=(int)t-1; if(i<0||i>=nf||F[i].state==FB_FREE||F[i].joined||F[i].detached) return ESRCH; sim_wait_fiber(i); if(r)*r=F[i].ret; return 0; }
int sim_pthread_detach(pthread_t t){ int i=(int)t-1; if(i<0||i>=nf) return ESRCH; F[i].detached=1; return 0; }
int sim_pthread_equal(pthread_t a,pthread_t b){ return a==b; }
int sim_pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a){ (void)a; TICK(4); if(fault_roll(F_MUTEX_INIT,0)) return ENOMEM; memset(m,0,sizeof *m); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t*m){ smutex*s=(smutex*)m; TICK(4); if(s->owner) return EBUSY; s->magic=MUTEX_DEAD; return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t*m){ smutex*s=(smutex*)m; mutex_alive(s); TICK(cost_atomic); if(s->owner) return EBUSY; s->owner=cur+1; return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t*m){ smutex*s=(smutex*)m; chk(m,4,(u64)__builtin_return_address(0),"mutex access"); mutex_alive(s); TICK(cost_atomic); if(cur<0){ s->owner=1000; return 0; } while(s->owner) sim_block(m,0); s->owner=cur+1; TICK(1); return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t*m){ smutex*s=(smutex*)m; chk(m,4,(u64)__builtin_return_address(0),"mutex access"); mutex_alive(s); TICK(cost_atomic); if(cur>=0&&s->owner!=cur+1) return EPERM; s->owner=0; sim_wake_all(m); TICK(cost_atomic); return 0; }
int sim_pthread_mutexattr_setpshared(pthread_mutexattr_t*a,int v){ (void)a;(void)v; return 0; }
int sim_pthread_condattr_setpshared(pthread_condattr_t*a,int v){ (void)a;(void)v; return 0; }
int sim_pthread_cond_init(pthread_cond_t*c,const pthread_condattr_t*a){ (void)a; memset(c,0,sizeof *c); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t*c){ (void)c; return 0; }
int sim_pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ TICK(cost_atomic); sim_pthread_mutex_t_release(m); 
   if(rng_chance(&r_misc,fair_mode?0:sim_sched.spurious_prob)){ SH->faults[F_SPURIOUS_WAKE]++; sim_yield(); }
   else sim_block(c,0);
   smutex*s=(smutex*)m; while(s->owner) sim_block(m,0); s->owner=cur+1; return 0; }
void sim_pthread_mutex_t_release(pthread_mutex_t*m){ smutex*s=(smutex*)m; if(s->owner!=cur+1) sim_fail(SIM_ABORT,"condition wait without holding the mutex"); s->owner=0; sim_wake_all(m); }
int sim_pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*ts){ sim_pthread_mutex_t_release(m); u64 t=(u64)ts->tv_sec*1000000000ull+ts->tv_nsec; u64 base=sim_realtime(); u64 d=t>base?t-base:1; int w=sim_block(c,now_ns+d); smutex*s=(smutex*)m; while(s->owner) sim_block(m,0); s->owner=cur+1; return w==2?ETIMEDOUT:0; }
int sim_pthread_cond_signal(pthread_cond_t*c){ TICK(cost_atomic); wake_one(c); TICK(cost_atomic); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t*c){ TICK(cost_atomic); sim_wake_all(c); TICK(cost_atomic); return 0; }
int sim_pthread_spin_init(pthread_spinlock_t*l,int p){ (void)p; *(volatile int*)l=0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t*l){ (void)l; return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t*l){ TICK(cost_atomic); if(*(volatile int*)l) return EBUSY; *(volatile int*)l=cur+1; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t*l){ TICK(cost_atomic); while(*(volatile int*)l) sim_block((void*)l,0); *(volatile int*)l=cur+1; TICK(1); return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t*l){ TICK(cost_atomic); *(volatile int*)l=0; sim_wake_all((void*)l); TICK(1); return 0; }
/* rwlocks */
typedef struct { i32 w; i32 r; } srw;
int sim_pthread_rwlock_init(pthread_rwlock_t*l,const void*a){ (void)a; memset(l,0,sizeof(srw)); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t*l){ (void)l; return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t*l){ srw*s=(srw*)l; TICK(cost_atomic); while(s->w) sim_block(l,0); s->r++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t*l){ srw*s=(srw*)l; TICK(cost_atomic); while(s->w||s->r) sim_block(l,0); s->w=1; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t*l){ srw*s=(srw*)l; TICK(cost_atomic); if(s->w) s->w=0; else s->r--; sim_wake_all(l); return 0; }
int sim_sem_init(sem_t*s,int p,unsigned v){ (void)p; *(volatile int*)s=v; return 0; }
int sim_sem_destroy(sem_t*s){ (void)s; return 0; }
int sim_sem_wait(sem_t*s){ TICK(cost_atomic); while(*(volatile int*)s<=0) sim_block(s,0); (*(volatile int*)s)--; return 0; }
int sim_sem_trywait(sem_t*s){ TICK(cost_atomic); if(*(volatile int*)s<=0){errno=EAGAIN;return -1;} (*(volatile int*)s)--; return 0; }
int sim_sem_post(sem_t*s){ TICK(cost_atomic); (*(volatile int*)s)++; sim_wake_all(s); return 0; }
int sim_sched_yield(void){ sim_yield(); return 0; }

/* ------------------------------------------------------------------ time, misc */
u64 sim_realtime(void){ return 1700000000000000000ull+sim_now()+(u64)sim_clock_skew; }
int sim_clock_gettime(clockid_t c,struct timespec*ts){ TICK(2); u64 t=c==CLOCK_REALTIME?sim_realtime():1000000000ull+sim_now(); ts->tv_sec=t/1000000000ull; ts->tv_nsec=t%1000000000ull; return 0; }
static void sleep_ns(u64 ns){ if(cur<0) return; if(ns==0){ sim_yield(); return; } sim_block((void*)1,sim_now()+ns); }
int sim_clock_nanosleep(clockid_t c,int fl,const struct timespec*t,struct timespec*rem){ (void)rem; u64 ns=(u64)t->tv_sec*1000000000ull+t->tv_nsec; if(fl&TIMER_ABSTIME){ u64 n=c==CLOCK_REALTIME?sim_realtime():1000000000ull+sim_now(); ns=ns>n?ns-n:0; } sleep_ns(ns); return 0; }
int sim_nanosleep(const struct timespec*t,struct timespec*rem){ return sim_clock_nanosleep(CLOCK_MONOTONIC,0,t,rem); }
int sim_usleep(unsigned us){ sleep_ns((u64)us*1000); return 0; }
unsigned sim_sleep(unsigned s){ sleep_ns((u64)s*1000000000ull); return 0; }
int sim_gettimeofday(struct timeval*tv,void*z){ (void)z; u64 t=sim_realtime(); tv->tv_sec=t/1000000000ull; tv->tv_usec=t%1000000000ull/1000; return 0; }
time_t sim_time(time_t*o){ time_t t=sim_realtime()/1000000000ull; if(o)*o=t; return t; }
pid_t sim_getpid(void){ return 4242; }
int sim_rand(void){ return (int)(rng_next(&r_misc)>>33); }
long sim_random(void){ return (long)(rng_next(&r_misc)>>33); }
void sim_abort(void){ 
   char*e=SH->err; u32 n=SH->errlen<SIM_ERRBUF?SH->errlen:SIM_ERRBUF-1; e[n]=0; u32 st=n>900?n-900:0; sim_fail(SIM_ABORT,"%s",e+st); }
void sim_exit(int c){ sim_fail(SIM_EXIT,"exit(%d) called",c); }

/* ------------------------------------------------------------------ tsan entry points */
void __tsan_init(void){}
void __tsan_func_entry(void*p){(void)p;} void __tsan_func_exit(void){}
#define S ((u64)__builtin_return_address(0))
#define RW(n) void __tsan_read##n(void*p){ chk(p,n,S,"read"); TICK(1);} void __tsan_write##n(void*p){ chk(p,n,S,"write"); TICK(1);} \
 void __tsan_unaligned_read##n(void*p){ chk(p,1,S,"read"); chk((u8*)p+n-1,1,S,"read"); TICK(1);} void __tsan_unaligned_write##n(void*p){ chk(p,1,S,"write"); chk((u8*)p+n-1,1,S,"write"); TICK(1);} \
 void __tsan_volatile_read##n(void*p){ chk(p,n,S,"read"); TICK(1);} void __tsan_volatile_write##n(void*p){ chk(p,n,S,"write"); TICK(1);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,u64 n){ chk_range(p,n,S,"read"); TICK(1+(long)(n>>4)); }
void __tsan_write_range(void*p,u64 n){ chk_range(p,n,S,"write"); TICK(1+(long)(n>>4)); }
void __tsan_vptr_update(void**p,void*v){(void)p;(void)v;} void __tsan_vptr_read(void**p){(void)p;}
#define AT(n,T) \
T __tsan_atomic##n##_load(const volatile T*p,int o){ (void)o; chk((void*)p,sizeof(T),S,"read"); TICK(cost_atomic); return *p; } \
void __tsan_atomic##n##_store(volatile T*p,T v,int o){ (void)o; chk((void*)p,sizeof(T),S,"write"); TICK(cost_atomic); *p=v; } \
T __tsan_atomic##n##_exchange(volatile T*p,T v,int o){ (void)o; chk((void*)p,sizeof(T),S,"write"); TICK(cost_atomic); T x=*p; *p=v; return x; } \
T __tsan_atomic##n##_fetch_add(volatile T*p,T v,int o){ (void)o; chk((void*)p,sizeof(T),S,"write"); TICK(cost_atomic); T x=*p; *p=x+v; return x; } \
T __tsan_atomic##n##_fetch_sub(volatile T*p,T v,int o){ (void)o; chk((void*)p,sizeof(T),S,"write"); TICK(cost_atomic); T x=*p; *p=x-v; return x; } \
T __tsan_atomic##n##_fetch_and(volatile T*p,T v,int o){ (void)o; chk((void*)p,sizeof(T),S,"write"); TICK(cost_atomic); T x=*p; *p=x&v; return x; } \
T __tsan_atomic##n##_fetch_or(volatile T*p,T v,int o){ (void)o; chk((void*)p,sizeof(T),S,"write"); TICK(cost_atomic); T x=*p; *p=x|v; return x; } \
T __tsan_atomic##n##_fetch_xor(volatile T*p,T v,int o){ (void)o; chk((void*)p,sizeof(T),S,"write"); TICK(cost_atomic); T x=*p; *p=x^v; return x; } \
T __tsan_atomic##n##_fetch_nand(volatile T*p,T v,int o){ (void)o; chk((void*)p,sizeof(T),S,"write"); TICK(cost_atomic); T x=*p; *p=~(x&v); return x; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T*p,T*e,T v,int o,int fo){ (void)o;(void)fo; chk((void*)p,sizeof(T),S,"write"); TICK(cost_atomic); if(*p==*e){ *p=v; return 1; } *e=*p; return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T*p,T*e,T v,int o,int fo){ (void)o;(void)fo; chk((void*)p,sizeof(T),S,"write"); TICK(cost_atomic); if(*p==*e){ *p=v; return 1; } *e=*p; return 0; } \
T __tsan_atomic##n##_compare_exchange_val(volatile T*p,T e,T v,int o,int fo){ (void)o;(void)fo; chk((void*)p,sizeof(T),S,"write"); TICK(cost_atomic); T x=*p; if(x==e) *p=v; return x; }
AT(8,u8) AT(16,u16) AT(32,u32) AT(64,u64) AT(128,unsigned __int128)
void __tsan_atomic_thread_fence(int o){ (void)o; TICK(cost_atomic); }
void __tsan_atomic_signal_fence(int o){ (void)o; }

/* ------------------------------------------------------------------ init & run */
static ssize_t errw(void*c,const char*b,size_t n){ (void)c; for(size_t i=0;i<n;i++){ if(SH->errlen>=SIM_ERRBUF-1){ memmove(SH->err,SH->err+SIM_ERRBUF/2,SIM_ERRBUF/2); SH->errlen-=SIM_ERRBUF/2; } SH->err[SH->errlen++]=b[i]; } return n; }
FILE *sim_err_stream(void){ static FILE*f; if(getenv("SIMERR")) return stderr; if(!f){ cookie_io_functions_t io={0}; io.write=errw; f=fopencookie(0,"w",io); setvbuf(f,0,_IONBF,0);} return f; }
static void on_segv(int sig,siginfo_t*si,void*uc){ (void)uc; ucontext_t*u=uc; u64 pc=u->uc_mcontext.gregs[REG_RIP];
   SH->errlen=SH->errlen<SIM_ERRBUF?SH->errlen:SIM_ERRBUF-1; SH->err[SH->errlen]=0;
   snprintf(SH->msg,sizeof SH->msg,"signal %d at address %p, pc %#llx; last messages: %.600s",sig,si->si_addr,(unsigned long long)pc,SH->err+(SH->errlen>600?SH->errlen-600:0));
   take_bt(u->uc_mcontext.gregs[REG_RBP],pc); SH->status=SIM_SEGV; SH->steps=sim_step(); _exit(40+SIM_SEGV); }
void sim_global_init(void){
   dl_iterate_phdr(phdr_cb,0); if(tls_len>TLSMAX){ fprintf(stderr,"TLS too large\n"); exit(3);} memcpy(tls_init_img,tls_addr,tls_len);
   SH=mmap(0,sizeof *SH,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
   stack_base=mmap(STACKS_ADDR,(u64)MAXF*(STACKSZ+4096*4),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
   for(int i=0;i<MAXF;i++) mprotect(stack_base+(u64)i*(STACKSZ+4096*4),4096*4,PROT_NONE);
   if(mmap((void*)ARENA_BASE,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)==MAP_FAILED||
      mmap((void*)ARENA_SHADOW,ARENA_SIZE/16,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)==MAP_FAILED||SH==MAP_FAILED||stack_base==MAP_FAILED){ perror("mmap"); exit(3);} 
   sim_budget=slice_q=1<<30;
   disk_global_init();
}
void sim_child_init(u64 seed,const sched_cfg*sc,const fault_cfg*fc){
   rng_seed(&r_sched,seed,1); rng_seed(&r_misc,seed,2); rng_seed(&r_fault,seed,3); rng_seed(&sim_r_io,seed,4);
   sim_sched=*sc; sim_faults=*fc; cost_atomic=sc->atomic_cost?sc->atomic_cost:1;
   sim_clock_skew=(i64)(hash2(seed,0xc10c)%1000000000000000ull); /* the wall clock is not monotonic across processes */
   base_steps=0; now_ns=0; slice_q=sim_budget=1<<30; nf=0; cur=-1; nlive=0; prio_low=0; 
   next_pct=1+rng_below(&r_sched,2*(sc->pct_mean?sc->pct_mean:1)); next_stall=sc->stall_mean?1+rng_below(&r_sched,2*sc->stall_mean):~0ull;
   stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=malloc(131072); ss.ss_size=131072; sigaltstack(&ss,0);
   struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_segv; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGILL,&sa,0);
   disk_child_init();
}
void sim_run(void){ if(nlive==0) return; in_sim=1; base_steps=0; slice_q=sim_budget=64; last_progress=0; int p=0; for(p=0;p<nf;p++) if(F[p].state==FB_RUN) break; switch_to(p); in_sim=0; account(); SH->steps=base_steps; SH->simtime_ns=now_ns; slice_q=sim_budget=1<<30; }
void sim_default_faults(fault_cfg*f){ memset(f,0,sizeof *f); for(int i=0;i<F_NKINDS;i++) f->nth[i]=-1; f->enabled=1; f->count_limit=~0ull; }
void sim_default_sched(sched_cfg*s,rng_t*r){
   memset(s,0,sizeof *s); u64 k=rng_below(r,100);
   s->mode = k<35?SM_RANDOM : k<55?SM_PCT : k<92?SM_STALL : SM_RR;
   s->qmin=rng_logu(r,1,256); s->qmax=s->qmin*rng_logu(r,2,4096); if(s->qmax>200000) s->qmax=200000;
   static const u32 ac[]={1,1,4,16,64}; s->atomic_cost=ac[rng_below(r,5)];
   s->pct_mean=rng_logu(r,2000,400000); s->stall_mean=rng_logu(r,2000,1000000); s->stall_max=rng_logu(r,20000,8000000);
   s->io_lat_min=rng_logu(r,10,2000); s->io_lat_max=s->io_lat_min*rng_logu(r,1,256);
   s->io_stall_prob=rng_chance(r,0.3)?0.02:0; s->spurious_prob=rng_chance(r,0.5)?0.1:0;
   if(s->mode==SM_RR){ s->qmin=s->qmax=rng_logu(r,8,50000); }
}
