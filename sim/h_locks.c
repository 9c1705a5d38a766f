/* C17: the library's lock types under seeded schedules. */
#include "unit.h"
static const char *COVN[]={"reads","writes","claims","failed_claims","mutex","spin","cv_items","waits",0};
enum { CV_R, CV_W, CV_C, CV_FC, CV_M, CV_S, CV_I, CV_WT };
#define NIDX 4
typedef struct { int readers, claim, writer; u64 data[8]; u64 ver; } occ;
static struct { int nt, nops, nidx, idx[NIDX], wr, hold, useprof, qcap, nprod; } L;
static platform_batch_rwlock *BL; static occ O[NIDX]; static int others;
static platform_mutex MX; static platform_spinlock SP; static occ MO, SO;
static platform_condvar CV; static u64 Q[8]; static int qn, qh, produced, consumed, pending_prod; static u8 seen[4096];
static void publish(occ*o,rng_t*r){ o->ver++; for(int i=0;i<8;i++){ o->data[i]=fill_word(o->ver,i); if(RND(3)==0) sim_sched_point(); } }
static void observe(occ*o,const char*w){ u64 v=o->ver; for(int i=0;i<8;i++){ UCHK(o->ver==v,"%s: data changed while it was held shared",w); UCHK(o->data[i]==(v?fill_word(v,i):0),"%s: torn or stale data seen under the lock (word %d of version %llu)",w,i,(unsigned long long)v); sim_sched_point(); } }
static void dawdle(rng_t*r){ int n=RND(4)==0?RND(12):RND(3); for(int i=0;i<n;i++) sim_sched_point(); if(RND(25)==0) sim_yield(); }
static void rw_op(int t,int k,rng_t*r){
   u64 ix=L.idx[k]; occ*o=&O[k];
   platform_batch_rwlock_get(BL,ix);
   UCHK(o->writer==0,"read lock %llu granted while it is write locked",(unsigned long long)ix); o->readers++; US->cov[CV_R]++;
   observe(o,"read lock"); dawdle(r);
   int mode=RND(100); int want=mode<L.wr, loop=RND(2);
   if(!want){ UCHK(o->writer==0,"a writer entered while lock %llu was read locked",(unsigned long long)ix); o->readers--; platform_batch_rwlock_unget(BL,ix); return; }
   o->readers--;            /* a claim may release the read lock on the way */
   if(loop){ platform_batch_rwlock_claim_loop(BL,ix); }
   else if(!platform_batch_rwlock_try_claim(BL,ix)){ o->readers++; US->cov[CV_FC]++; observe(o,"read lock after a failed claim"); o->readers--; platform_batch_rwlock_unget(BL,ix); return; }
   UCHK(o->claim==0,"lock %llu claimed twice",(unsigned long long)ix); UCHK(o->writer==0,"lock %llu claimed while write locked",(unsigned long long)ix); o->claim=t+1; US->cov[CV_C]++;
   observe(o,"claim"); dawdle(r);
   int depth=RND(4);
   if(depth==0){ UCHK(o->claim==t+1,"claim of lock %llu lost",(unsigned long long)ix); o->claim=0; o->readers++; platform_batch_rwlock_unclaim(BL,ix); observe(o,"read lock after unclaim"); o->readers--; platform_batch_rwlock_unget(BL,ix); return; }
   for(int rep=0;;rep++){
      platform_batch_rwlock_lock(BL,ix);
      UCHK(o->readers==0,"write lock %llu granted while %d readers hold it",(unsigned long long)ix,o->readers); UCHK(o->writer==0,"write lock %llu granted twice",(unsigned long long)ix); UCHK(o->claim==t+1,"write lock %llu granted while another thread claims it",(unsigned long long)ix);
      o->writer=1; US->cov[CV_W]++; publish(o,r); dawdle(r); publish(o,r);
      UCHK(o->readers==0&&o->claim==t+1,"write lock %llu did not exclude others",(unsigned long long)ix);
      o->writer=0;
      if(depth==1||rep>1){ o->claim=0; platform_batch_rwlock_full_unlock(BL,ix); return; }
      platform_batch_rwlock_unlock(BL,ix); observe(o,"claim after unlock");
      if(depth==2||RND(2)){ o->claim=0; o->readers++; platform_batch_rwlock_unclaim(BL,ix); observe(o,"read lock after unclaim"); o->readers--; platform_batch_rwlock_unget(BL,ix); return; } } }
static void mutex_op(int t,rng_t*r){ platform_status rc=platform_mutex_lock(&MX); UCHK(SUCCESS(rc),"mutex lock failed"); UCHK(MO.writer==0,"mutex held twice"); MO.writer=t+1; publish(&MO,r); dawdle(r); UCHK(MO.writer==t+1,"mutex did not exclude"); MO.writer=0; US->cov[CV_M]++; rc=platform_mutex_unlock(&MX); UCHK(SUCCESS(rc),"mutex unlock failed"); }
static void spin_op(int t,rng_t*r){ platform_status rc=platform_spin_lock(&SP); UCHK(SUCCESS(rc),"spinlock failed"); UCHK(SO.writer==0,"spinlock held twice"); SO.writer=t+1; publish(&SO,r); dawdle(r); UCHK(SO.writer==t+1,"spinlock did not exclude"); SO.writer=0; US->cov[CV_S]++; rc=platform_spin_unlock(&SP); UCHK(SUCCESS(rc),"spin unlock failed"); }
static void cv_produce(int t,rng_t*r,u64 v){ UCHK(SUCCESS(platform_condvar_lock(&CV)),"condvar lock"); while(qn==L.qcap){ US->cov[CV_WT]++; UCHK(SUCCESS(platform_condvar_wait(&CV)),"condvar wait"); } Q[(qh+qn)%L.qcap]=v; qn++; produced++; dawdle(r); UCHK(SUCCESS(platform_condvar_broadcast(&CV)),"condvar broadcast"); UCHK(SUCCESS(platform_condvar_unlock(&CV)),"condvar unlock"); }
static void cv_consume(int t,rng_t*r){ UCHK(SUCCESS(platform_condvar_lock(&CV)),"condvar lock"); while(qn==0){ if(pending_prod==0) goto out; US->cov[CV_WT]++; UCHK(SUCCESS(platform_condvar_wait(&CV)),"condvar wait"); } { u64 v=Q[qh]; qh=(qh+1)%L.qcap; qn--; UCHK(v<4096&&!seen[v],"item %llu consumed twice",(unsigned long long)v); seen[v]=1; consumed++; US->cov[CV_I]++; dawdle(r); }
out: UCHK(SUCCESS(platform_condvar_broadcast(&CV)),"condvar broadcast"); UCHK(SUCCESS(platform_condvar_unlock(&CV)),"condvar unlock"); }
static int TID[64];
static void client(int t){
   platform_set_tid(TID[t]);
   if(L.hold&&t==0){ /* holds one lock of the batch until everyone using the others is done */
      int k=L.nidx-1; rng_t r=op_rng(999); platform_batch_rwlock_get(BL,L.idx[k]); platform_batch_rwlock_claim_loop(BL,L.idx[k]); if(L.hold>1){ platform_batch_rwlock_lock(BL,L.idx[k]); O[k].writer=1; } publish(&O[k],&r);
      while(others) sim_spin_yield();
      observe(&O[k],"long hold"); O[k].writer=0; if(L.hold>1) platform_batch_rwlock_full_unlock(BL,L.idx[k]); else { platform_batch_rwlock_unclaim(BL,L.idx[k]); platform_batch_rwlock_unget(BL,L.idx[k]); } sim_progress(); return; }
   int prod=t<L.nprod;
   for(int i=0;i<L.nops;i++){ u64 id=(u64)t<<32|i; if(op_skipped(id)) continue; rng_t r0=op_rng(id),*r=&r0; 
      switch(L.useprof){ case 0: { int n=L.hold?L.nidx-1:L.nidx; rw_op(t,RND(n),r); break; }
       case 1: if(RND(2)) mutex_op(t,r); else spin_op(t,r); break;
       case 2: if(prod) cv_produce(t,r,(u64)t*L.nops+i); else cv_consume(t,r); break;
       default: { int n=L.hold?L.nidx-1:L.nidx; switch(RND(4)){ case 0: mutex_op(t,r); break; case 1: spin_op(t,r); break; default: rw_op(t,RND(n),r); } } }
      US->ops++; sim_progress(); }
   if(L.useprof==2&&prod){ platform_condvar_lock(&CV); pending_prod--; platform_condvar_broadcast(&CV); platform_condvar_unlock(&CV); }
   if(L.useprof==2&&!prod) while(pending_prod||qn){ rng_t r=op_rng(7); cv_consume(t,&r); }
   others--; sim_progress(); }
#undef RND
#define RND(n) rng_below(&r,(n))
static void main_(void*a){ (void)a; rng_t r; rng_seed(&r,OPT.seed,0x91a7);
   memset(&L,0,sizeof L); L.nt=2+RND(7); L.nops=10+rng_logu(&r,1,150); if(OPT.max_ops&&L.nops>(int)OPT.max_ops) L.nops=OPT.max_ops; L.nidx=1+RND(NIDX); for(int i=0;i<L.nidx;i++){ again: L.idx[i]=RND(PLATFORM_CACHELINE_SIZE/2); if(RND(3)==0&&i) L.idx[i]=(L.idx[0]+i)%(PLATFORM_CACHELINE_SIZE/2); for(int j=0;j<i;j++) if(L.idx[j]==L.idx[i]) goto again; }
   L.wr=10+RND(80); L.useprof=RND(10)<6?0:RND(4); L.hold=(L.nidx>1&&RND(3)==0)?1+RND(2):0; if(L.useprof==1||L.useprof==2) L.hold=0; if(OPT.max_threads&&L.nt>OPT.max_threads) L.nt=OPT.max_threads; L.nprod=L.nt>1?1+RND(L.nt-1):1; if(L.useprof==2&&L.nt<2) L.useprof=1; pending_prod=L.useprof==2?L.nprod:0; L.qcap=1+RND(6); if((u64)L.nops*L.nprod>4000) L.nops=4000/L.nprod;
   US->state=hash3(L.nt,L.nidx,hash3(L.wr/20,L.useprof,L.hold));
   BL=aligned_alloc(PLATFORM_CACHELINE_SIZE,sizeof *BL); memset((void*)BL,0xA5,sizeof *BL); platform_batch_rwlock_init(BL); memset(O,0,sizeof O); memset(&MO,0,sizeof MO); memset(&SO,0,sizeof SO); qn=qh=produced=consumed=0; memset(seen,0,sizeof seen);
   for(int i=0;i<64;i++) TID[i]=i; if(RND(2)) for(int i=0;i<63;i++){ int j=i+RND(63-i),x=TID[i]; TID[i]=TID[j]; TID[j]=x; }
   platform_set_tid(63); UCHK(SUCCESS(platform_mutex_init(&MX,platform_get_module_id(),PROCESS_PRIVATE_HEAP_ID)),"mutex init"); UCHK(SUCCESS(platform_spinlock_init(&SP,platform_get_module_id(),PROCESS_PRIVATE_HEAP_ID)),"spinlock init"); UCHK(SUCCESS(platform_condvar_init(&CV,PROCESS_PRIVATE_HEAP_ID)),"condvar init");
   others=L.nt-(L.hold?1:0); unit_clients(client,L.nt);
   if(L.useprof==2) UCHK(produced==consumed&&qn==0,"%d items produced but %d consumed",produced,consumed);
   for(u64 i=0;i<PLATFORM_CACHELINE_SIZE/2;i++){ platform_batch_rwlock_get(BL,i); platform_batch_rwlock_claim_loop(BL,i); platform_batch_rwlock_lock(BL,i); platform_batch_rwlock_full_unlock(BL,i); }
   UCHK(SUCCESS(platform_mutex_destroy(&MX)),"mutex destroy"); UCHK(SUCCESS(platform_spinlock_destroy(&SP)),"spinlock destroy"); platform_condvar_destroy(&CV); free((void*)BL); unit_leakcheck(); US->done=1; sim_progress(); }
static void run(void){ sched_cfg sc; fault_cfg fc; unit_sched(0,&sc,&fc,1); sim_hang_limit=3000000; unit_session(main_,0,&sc,&fc); }
static harness H_locks={"locks",unit_init,run,COVN}; REGISTER_HARNESS(H_locks)
