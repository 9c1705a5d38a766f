/* C10 and C13: the task system and thread registration. */
#include "unit.h"
static const char *COVN[]={"enqueued","bg_runs","fg_runs","quiesce","registers","register_busy","register_nomem","threads_started","start_failures","final_drains",0};
enum { CV_E, CV_BG, CV_FG, CV_Q, CV_REG, CV_BUSY, CV_NOMEM, CV_TS, CV_TF, CV_DR };
#define MAXT 4096
typedef struct { u8 type, athead, fixed; int kids; u16 depth; volatile int runs, done; u64 inv, resp, start, end; } trec;
static trec TR[MAXT]; static int ntr;
static struct { int nt, nops, nbg[3], stats, kids, athead, qs, wq, helpers; u64 scratch; int reg, lim; } T;
static uenv E;
static int definite; static u64 last_zero;       /* tasks certainly outstanding; last moment without any */
static void zero_mark(void){ if(definite==0) last_zero=++US->ev; }
/* ---- identities ---- */
static int live[64]; static u8 *liveScratch[64]; static int nlive_, ntrying;
static void id_enter(int t,int fresh){
   threadid tid=platform_get_tid(); UCHK(tid<MAX_THREADS,"registered thread has no identity (%lu)",tid); u8*s=task_system_get_thread_scratch(E.ts,tid); UCHK(live[tid]==0,"identity %lu given to two live threads",tid); live[tid]=t+1; nlive_++; liveScratch[tid]=s;
   if(T.scratch){ UCHK(s!=NULL,"no scratch space for thread %lu",tid); for(int i=0;i<64;i++) if(i!=(int)tid&&live[i]) UCHK(liveScratch[i]!=s,"threads %d and %lu share scratch space",i,tid); if(fresh) for(u64 i=0;i<T.scratch;i++) UCHK(s[i]==0,"scratch space of a new thread is not clean"); memset(s,(int)(t*7+1),T.scratch); } }
static void id_check(int t){ threadid tid=platform_get_tid(); UCHK(tid<MAX_THREADS&&live[tid]==t+1,"thread %d lost its identity (now %lu)",t,tid); u8*s=task_system_get_thread_scratch(E.ts,tid); UCHK(s==liveScratch[tid],"scratch space of thread %lu moved",tid); if(T.scratch) for(u64 i=0;i<T.scratch;i++) UCHK(s[i]==(u8)(t*7+1),"scratch space of thread %lu was changed by another thread",tid); }
static void id_leave(int t){ { threadid me=platform_get_tid(); threadid mx=task_get_max_tid(E.ts); UCHK(mx>me,"task_get_max_tid() is %lu although thread %lu is live",mx,me); } id_check(t); live[platform_get_tid()]=0; nlive_--; }
/* ---- tasks ---- */
static void run_task(void*arg,void*scratch);
static int new_task(int type,int athead,int depth,int fixed){ if(ntr>=MAXT) return -1; int i=ntr++; memset(&TR[i],0,sizeof TR[i]); TR[i].type=type; TR[i].athead=athead; TR[i].depth=depth; TR[i].fixed=fixed; return i; }
static int enqueue(int type,int athead,int depth,int fixed){ int i=new_task(type,athead,depth,fixed); if(i<0) return -1; TR[i].inv=++US->ev; 
   platform_status rc=task_enqueue(E.ts,type,run_task,&TR[i],athead);
   if(!SUCCESS(rc)){ UCHK(TR[i].runs==0,"task %d ran although enqueueing it failed",i); TR[i].runs=-1; US->cov[CV_NOMEM]++; return -1; }
   TR[i].resp=++US->ev; zero_mark(); if(!TR[i].done) definite++; TR[i].kids|=1<<16; US->cov[CV_E]++; return i; }
static void run_task(void*arg,void*scratch){
   trec*t=arg; int i=t-TR; UCHK(i>=0&&i<ntr,"a task ran with a foreign argument"); UCHK(t->runs==0,"task %d was executed %s",i,t->runs<0?"after its enqueue failed":"twice"); t->runs=1; t->start=++US->ev;
   threadid tid=platform_get_tid(); UCHK(tid<MAX_THREADS,"task runs on an unregistered thread"); void*s=task_system_get_thread_scratch(E.ts,tid); UCHK(s==scratch,"task %d got scratch space that is not its thread's",i);
   u8*b=scratch; u8 old[64]; u64 n=T.scratch<64?T.scratch:64; if(n){ memcpy(old,b,n); memset(b,0xC0+i%32,n); }
   rng_t r0=op_rng(0x7a5c0000+i),*r=&r0; int m=RND(4)?RND(6):RND(60); for(int k=0;k<m;k++) sim_sched_point(); if(RND(12)==0) sim_yield();
   if(!t->fixed&&t->depth<3&&(int)RND(100)<T.kids){ int k=1+RND(2); for(int j=0;j<k;j++) enqueue(1+RND(2),T.athead&&RND(4)==0,t->depth+1,0); }
   for(u64 k=0;k<n;k++) UCHK(b[k]==(u8)(0xC0+i%32),"scratch space of task %d was used by another task at the same time",i); if(n) memcpy(b,old,n);
   t->end=++US->ev; t->done=1; if(t->kids&(1<<16)){ definite--; zero_mark(); } US->ops++; sim_progress(); }
static void quiesce_check(u64 inv,const char*w){ zero_mark(); UCHK(last_zero>=inv,"%s although a task was outstanding all the time (%d now)",w,definite); US->cov[CV_Q]++; }
static int reg_thread(int t){ ntrying++; int lim=nlive_; platform_status rc=task_register_this_thread(E.ts,T.scratch); int low=nlive_<lim?nlive_:lim; ntrying--; (void)low;
   if(!SUCCESS(rc)){ UCHK(platform_get_tid()==INVALID_TID,"failed registration left an identity"); if(STATUS_IS_EQ(rc,STATUS_BUSY)) US->cov[CV_BUSY]++; else US->cov[CV_NOMEM]++; return STATUS_IS_EQ(rc,STATUS_BUSY)?1:2; }
   US->cov[CV_REG]++; id_enter(t,1); return 0; }
static void helper(void*arg){ int t=(int)(i64)arg; id_enter(t,1); for(int k=0;k<20;k++) sim_sched_point(); id_leave(t); sim_progress(); }
static int wanted; /* threads that hold or are about to hold an identity */
static void client(int t){
   rng_t rr=op_rng(0xAA0000+t); int regd=0; 
   for(int i=0;i<T.nops;i++){ u64 id=(u64)(t+1)<<32|i; if(op_skipped(id)) continue; rng_t r0=op_rng(id),*r=&r0;
      if(!regd){ int may_fail=0; wanted++; if(wanted+T.nbg[1]+T.nbg[2]+1>MAX_THREADS) may_fail=1; int w0=wanted; (void)w0; int rc; 
         static int maxw; if(wanted>maxw) maxw=wanted; 
         int fi=0; rc=reg_thread(t); if(rc==2) fi=1; 
         if(rc){ wanted--; UCHK(fi||may_fail||maxw+T.nbg[1]+T.nbg[2]+1>MAX_THREADS,"registration refused although only %d of %d identities were in use",maxw+T.nbg[1]+T.nbg[2]+1,MAX_THREADS); if(fi) UCHK(SH->faults[F_MALLOC]>0,"registration ran out of memory without reason"); sim_yield(); sim_progress(); continue; }
         regd=1; }
      int x=RND(100);
      if(T.reg){ if(x<45){ int k=RND(12); for(int j=0;j<k;j++) sim_sched_point(); id_check(t); }
         else if(x<55&&wanted+T.nbg[1]+T.nbg[2]+2<MAX_THREADS){ platform_thread th; wanted++; platform_status rc=task_thread_create("helper",helper,(void*)(i64)(1000+t*64+i%64),T.scratch,E.ts,E.hid,&th); if(SUCCESS(rc)){ US->cov[CV_TS]++; rc=platform_thread_join(th); UCHK(SUCCESS(rc),"join failed"); } else { US->cov[CV_TF]++; UCHK(SH->faults[F_MALLOC]+SH->faults[F_THREAD_CREATE]>0||STATUS_IS_EQ(rc,STATUS_BUSY),"thread could not be started without reason"); } wanted--; }
         else { id_leave(t); task_deregister_this_thread(E.ts); UCHK(platform_get_tid()==INVALID_TID,"deregistered thread keeps an identity"); wanted--; regd=0; if(RND(3)==0) sim_yield(); } }
      else if(x<55) enqueue(1+RND(2),T.athead&&RND(4)==0,0,0);
      else if(x<70&&T.helpers){ id_check(t); platform_status rc=task_perform_one_if_needed(E.ts,RND(2)?0:T.qs); (void)rc; }
      else if(x<78&&T.wq){ u64 inv=++US->ev; if(RND(2)&&T.helpers){ platform_status rc=task_perform_until_quiescent(E.ts); UCHK(SUCCESS(rc),"task_perform_until_quiescent failed"); quiesce_check(inv,"quiescence was reported"); } else if(task_system_is_quiescent(E.ts)) quiesce_check(inv,"the system was reported quiescent"); }
      else if(x<84){ id_check(t); id_leave(t); task_deregister_this_thread(E.ts); wanted--; regd=0; }
      else { int k=RND(10); for(int j=0;j<k;j++) sim_sched_point(); }
      US->ops++; sim_progress(); (void)rr; }
   if(regd){ id_leave(t); task_deregister_this_thread(E.ts); wanted--; } }
static int cmp_resp(const void*a,const void*b){ u64 x=TR[*(int*)a].start,y=TR[*(int*)b].start; return x<y?-1:1; }
static void order_check(int type){ static int ix[MAXT]; int n=0,ah=0; for(int i=0;i<ntr;i++) if(TR[i].type==type&&TR[i].runs==1){ ah|=TR[i].athead; ix[n++]=i; } qsort(ix,n,sizeof(int),cmp_resp);
   if(ah){ /* a task queued at the head starts before everything that was waiting */
      for(int a=0;a<n;a++){ trec*A=&TR[ix[a]]; if(!A->athead) continue; int since=0; for(int k=0;k<a;k++){ trec*B=&TR[ix[k]]; if(B->start<A->resp) continue; UCHK(!(since&&B->resp<A->inv),"task of type %d queued at the head started after %d tasks that were waiting already",type,since); since++; } } return; }
   u64 maxinv=0; for(int k=0;k<n;k++){ trec*t=&TR[ix[k]]; UCHK(maxinv<=t->resp,"tasks of type %d did not start in the order they were queued",type); if(t->inv>maxinv) maxinv=t->inv; } }
static void main_(void*a){ (void)a; rng_t r0,*r=&r0; rng_seed(r,OPT.seed,0x91a7); memset(&T,0,sizeof T); ntr=0; definite=0; last_zero=0; wanted=0; memset(live,0,sizeof live); nlive_=0;
   T.reg=UPROF("reg"); T.nt=T.reg?2+RND(10):1+RND(6); if(T.reg&&RND(4)==0) T.nt=58+RND(12); T.nops=T.reg?(T.nt>20?6+RND(20):20+RND(150)):20+rng_logu(r,1,200); if(OPT.max_ops&&T.nops>(int)OPT.max_ops) T.nops=OPT.max_ops; for(int i=1;i<3;i++) T.nbg[i]=RND(4)==0?0:RND(4); 
   if(RND(4)==0) for(int i=1;i<3;i++) T.nbg[i]=1;
   T.stats=RND(2); T.kids=RND(3)?RND(40):0; T.athead=RND(3)==0; T.qs=50+RND(300); T.wq=RND(3)>0; T.helpers=RND(4)>0; T.scratch=RND(5)==0?0:64*RND(20)+8;
   US->state=hash3(T.nt,T.nbg[1]*8+T.nbg[2],T.reg*4+T.helpers*2+T.athead);
   fault_cfg saved=sim_faults; sim_faults.enabled=0; uenv_up(&E,64<<20,0,T.nbg[1],T.nbg[2],64,T.stats,0,T.scratch); sim_faults=saved; id_enter(5000,1);
   unit_clients(client,T.nt); sim_faults.enabled=0; id_check(5000);
   int pure=!T.helpers&&!T.wq&&T.nbg[1]&&T.nbg[2]; if(!pure) task_perform_all(E.ts);
   u64 inv=++US->ev; platform_status rc=STATUS_OK; if(pure) while(!task_system_is_quiescent(E.ts)) sim_spin_yield(); else rc=task_perform_until_quiescent(E.ts); UCHK(SUCCESS(rc),"final quiesce failed"); quiesce_check(inv,"final quiescence was reported"); UCHK(definite==0,"%d tasks outstanding after final quiescence",definite);
   for(int i=0;i<ntr;i++) if(TR[i].runs>=0) UCHK(TR[i].done&&TR[i].runs==1,"task %d was %s",i,TR[i].runs?"started but did not finish":"never executed");
   /* shutdown may find tasks that run, but none that wait */
   if(T.nbg[1]&&T.nbg[2]&&RND(2)){ int k=1+RND(8); for(int j=0;j<k;j++) enqueue(1+RND(2),0,0,1); task_wait_for_completion(E.ts); US->cov[CV_DR]++; }
   if(pure) for(int ty=1;ty<3;ty++) if(T.nbg[ty]==1) order_check(ty);
   id_leave(5000); uenv_down(&E,0);
   for(int i=0;i<ntr;i++) if(TR[i].runs>=0) UCHK(TR[i].done&&TR[i].runs==1,"after shutdown: task %d was %s",i,TR[i].runs?"started but did not finish":"never executed");
   unit_leakcheck(); US->done=1; sim_progress(); }
static void run(void){ sched_cfg sc; fault_cfg fc; unit_sched(0,&sc,&fc,OPT.seed%3>0); rng_t r; rng_seed(&r,OPT.seed,0xfa17); if(UPROF("reg")&&rng_chance(&r,0.5)){ fc.enabled=1; fc.prob[F_MALLOC]=rng_chance(&r,0.7)?0.05:0; fc.prob[F_THREAD_CREATE]=0.1; fc.count_limit=rng_range(&r,1,40); }
   if(!UPROF("reg")&&rng_chance(&r,0.15)){ fc.enabled=1; fc.prob[F_MALLOC]=0.03; fc.count_limit=rng_range(&r,1,20); }
   sim_hang_limit=6000000; unit_session(main_,0,&sc,&fc); }
static harness H_task={"task",unit_init,run,COVN}; REGISTER_HARNESS(H_task)
