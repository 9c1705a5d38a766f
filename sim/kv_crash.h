/* Crash runs: a history of sessions in which simulated processes die. Each crashed session is first run to its end, to
 * learn where its phases lie; then the same execution is repeated from the same device image and killed at several
 * points; what is left is opened again and judged. Included by h_kv.c. */
static u8*SNAP; static disk_hdr SNAPH; static u64 SNAPCAP;
static void snap_take(void){ if(DH->hiwater>SNAPCAP){ SNAPCAP=(DH->hiwater*2+(1<<20))&~4095ull; SNAP=raw_malloc(SNAPCAP); } SNAPH=*DH; memcpy(SNAP,DISK,DH->hiwater); }
static void snap_put(void){ u64 h=DH->hiwater; memcpy(DISK,SNAP,SNAPH.hiwater); if(h>SNAPH.hiwater) memset(DISK+SNAPH.hiwater,0,h-SNAPH.hiwater); *DH=SNAPH; DH->hiwater=h>SNAPH.hiwater?h:SNAPH.hiwater; }
enum { PH_START, PH_OPS, PH_CLOSE, PH_CLOSED };
static const char*PHN[]={"open or create","use","close","after close"};
/* crash at: 0 none, 1 step, 2 write */
/* the file was something else before */
static void noise(rng_t*r){ u64 n=rng_range(r,1,16)<<18; DH->exists=1; DH->size=n; DH->hiwater=n; rng_t q; rng_seed(&q,rng_next(r),1); for(u64 i=0;i<n;i+=8) *(u64*)(DISK+i)=rng_next(&q); }
static int cr_kind; static u64 cr_at; static int cr_retry; static int cr_faults=-1; static fault_cfg cr_fc; /* faults from this phase on */
 static int cr_create; static int cr_nops; static u64 cr_probe;
static void crash_main(void*a){
   int ep=(int)(i64)a; EPOCH=ep; splinterdb_config cfg; make_cfg(&cfg,ep);
   if(cr_kind==1) sim_crash_step=cr_at; else if(cr_kind==2) sim_crash_write=(i64)cr_at;
   KS->rc_open=cr_create?splinterdb_create(&cfg,&DB):splinterdb_open(&cfg,&DB);
   sim_progress(); memcpy(KS->opp,SH->opportunities,sizeof KS->opp);
   if(KS->rc_open&&cr_retry){ KS->failed1=KS->rc_open; sim_faults.enabled=0; after_close_checks(); KS->rc_open=cr_create?splinterdb_create(&cfg,&DB):splinterdb_open(&cfg,&DB); sim_progress(); }
   if(KS->rc_open){ after_close_checks(); return; }
   if(cr_faults==PH_START) sim_faults.enabled=0;
   if(cr_faults==PH_OPS){ if(cr_retry) FAULTCALLS=1; else sim_faults.enabled=1; }
   KS->opened=1; KS->mark[0]=sim_step(); KS->mark[1]=disk_write_events(); apply_tuning(); quiet_gen=memtable_generation(SPL->mt_ctxt);
   if(cr_probe) final_reads();
   int ids[64],n=cr_nops?P.nthreads[ep]:0; for(int t=0;t<n;t++){ CA[t].tid=t; CA[t].kind=0; CA[t].lo=0; CA[t].hi=cr_nops; ids[t]=sim_spawn(client,&CA[t],1); }
   for(int t=0;t<n;t++) sim_wait_fiber(ids[t]);
   if(cr_probe) final_reads();
   KS->mark[2]=sim_step(); KS->mark[3]=disk_write_events();
   FAULTCALLS=0; if(cr_faults==PH_CLOSE) sim_faults.enabled=1;
   harvest(); KS->closing=1; splinterdb_close(&DB); KS->closed=1; KS->mark[4]=sim_step(); KS->mark[5]=disk_write_events(); sim_progress();
   after_close_checks(); }
static int cr_st;
static int cr_mayabort(void){ if(KS->cov[CV_DISKFULL]) return 1; for(int k=F_READ_EIO;k<=F_AWRITE_EIO;k++) if(SH->faults[k]) return cr_faults>=0; if(cr_retry&&cr_faults>=0) for(int k=F_MALLOC;k<=F_MUTEX_INIT;k++) if(SH->faults[k]) return 1; return 0; }
static int cr_session(int ep,u64 seed,int kind,u64 at,int create,int nops,int probe){
   rng_t r; rng_seed(&r,seed,0x5c4ed); sched_cfg sc; fault_cfg fc; sim_default_sched(&sc,&r); sim_default_faults(&fc); if(cr_faults>=0) fc=cr_fc; if(rng_chance(&r,0.25)) sc.io_stall_prob=rng_chance(&r,0.5)?0.02:0.3;
   epoch_reset(); sim_hang_limit=60000000; cr_kind=kind; cr_at=at; cr_create=create; cr_nops=nops; cr_probe=probe;
   int st=run_epoch(crash_main,(void*)(i64)ep,seed,&sc,&fc); account();
   cr_st=st; if(st==SIM_OK||st==SIM_CRASHED) return 1;
   if(st==SIM_ABORT&&cr_mayabort()) return 1;
   if(st==SIM_STEPLIMIT||st==SIM_TIMEOUT){ RES.inconclusive++; return 0; }
   run_fail(sim_status_name[st],"%s: %s",sim_status_name[st],SH->msg); return 0; }
static void kset_copy(kset*d,const kset*s){ memcpy(d,s,sizeof(kset)*P.K); }
static kset *KB,*KA;
static u64 acked_writes(void){ u64 n=0; for(u32 i=0;i<KS->nhop;i++) n+=HOPS[i].type!=OP_READ&&HOPS[i].done; return n; }
static void ctx(char*b,size_t n,int sess,int create,int kind,u64 at,int ph,u64 m0,u64 m1){ snprintf(b,n,"session %d (%s) died at %s %llu, in %s (%llu..%llu)",sess,create?"create":"open",kind==1?"step":"write",(unsigned long long)at,PHN[ph],(unsigned long long)m0,(unsigned long long)m1); }
static void crash_judge(rng_t*r,int sess,u64 sseed,int nops,int create,int havedb,int kind,u64 at,const char*where){
   /* the process is dead; KS has how far it got. KB: contents before the session, KA: after it */
   char pre[300]; int opened=KS->opened, closing=KS->closing, closed=KS->closed; u64 nack=opened?acked_writes():0; KS->cov[CV_CRASHIMG]=0;
   snprintf(pre,sizeof pre,"%s",where); (void)sseed; (void)kind; (void)at; (void)nops; (void)sess;
   int tries=rng_chance(r,0.3)?2:1, accepted=0; 
   for(int q=0;q<tries&&!accepted;q++){
      /* open it again, read everything, use it, close it */
      kset_copy(KSETS,closed||closing?KA:KB); int n2=rng_chance(r,0.7)?rng_logu(r,10,600):0; int e2=rng_range(r,1,7);
      if(!cr_session(e2,rng_next(r),0,0,0,n2,1)){ if(RES.failed){ char m[1500]; snprintf(m,sizeof m,"%.1200s",RES.msg); snprintf(RES.msg,sizeof RES.msg,"%s; next open: %.1200s",pre,m); } return; }
      if(cr_st==SIM_ABORT){ if(KS->opened) check_history(); return; } /* no room any more */
      RES.checked++;
      if(KS->rc_open){ RES.cov[CV_REFUSED]++; if(closed){ run_fail("crash","%s; but the open after it failed with %d: %.500s",pre,KS->rc_open,SH->err); return; } continue; }
      accepted=1; RES.cov[CV_ACCEPTED]++;
      if(opened&&!closing&&nack){ run_fail("crash","%s with %llu acknowledged writes and no close; the next open nevertheless succeeded (try %d)",pre,(unsigned long long)nack,q+1); return; }
      if(!opened&&!havedb&&!create){ run_fail("crash","%s; no database was ever created or closed, but open succeeded",pre); return; }
      check_history(); if(RES.failed){ char m[1500]; snprintf(m,sizeof m,"%.1200s",RES.msg); snprintf(RES.msg,sizeof RES.msg,"%s; the next open succeeded with wrong contents: %.1200s",pre,m); return; }
      if(!KS->closed) { run_fail("internal","recovery session did not finish"); return; }
      /* and once more */
      if(!cr_session(e2%7+1,rng_next(r),0,0,0,rng_chance(r,0.5)?rng_logu(r,10,400):0,1)){ if(RES.failed){ char m[1500]; snprintf(m,sizeof m,"%.1200s",RES.msg); snprintf(RES.msg,sizeof RES.msg,"%s; the next open succeeded, the one after it: %.1200s",pre,m); } return; }
      if(cr_st==SIM_ABORT) return;
      if(KS->rc_open){ run_fail("crash","%s; the next open succeeded and closed, but the one after it failed with %d: %.500s",pre,KS->rc_open,SH->err); return; }
      check_history(); if(RES.failed){ char m[1500]; snprintf(m,sizeof m,"%.1200s",RES.msg); snprintf(RES.msg,sizeof RES.msg,"%s; the next open succeeded, the second one shows wrong contents: %.1200s",pre,m); return; } }
   if(!accepted&&rng_chance(r,0.3)&&!RES.failed){ /* a refused file can be created anew */
      for(u32 i=0;i<P.K;i++){ memset(&KSETS[i],0,sizeof(kset)); KSETS[i].n=1; }
      for(int q=0;q<2&&!RES.failed;q++){ if(!cr_session(1+q,rng_next(r),0,0,q==0,rng_logu(r,10,600),1)){ if(RES.failed){ char m[1500]; snprintf(m,sizeof m,"%.1200s",RES.msg); snprintf(RES.msg,sizeof RES.msg,"%s; open refused; %s: %.1200s",pre,q?"reopen after a new create":"new create",m); } return; }
         if(cr_st==SIM_ABORT) return;
         if(KS->rc_open){ run_fail("crash","%s; open refused; %s failed with %d: %.500s",pre,q?"reopen after a new create":"new create",KS->rc_open,SH->err); return; } check_history(); } } }
static void run_crash(void){
   make_plan(OPT.seed); for(u32 i=0;i<P.K;i++){ memset(&KSETS[i],0,sizeof(kset)); KSETS[i].n=1; }
   if(!KB){ KB=raw_malloc(sizeof(kset)*MAXK); KA=raw_malloc(sizeof(kset)*MAXK); }
   DC.max_key_size=P.keymax<24?24:P.keymax; KS->ev=0; rng_t r; rng_seed(&r,OPT.seed,0xc4a58);
   int prior=rng_below(&r,3), havedb=0; /* clean sessions first */
   if(rng_chance(&r,prior?0.1:0.5)) noise(&r);
   for(int s=0;s<=prior&&!RES.failed;s++){
      u64 seed=hash2(OPT.seed,1000+s); int create=s==0||(s==prior&&rng_chance(&r,0.08)); int nops=s<prior?P.nops[s]/2+1:rng_chance(&r,0.15)?0:rng_logu(&r,5,P.nops[s]); 
      kset_copy(KB,KSETS); if(create&&s>0) for(u32 i=0;i<P.K;i++){ memset(&KSETS[i],0,sizeof(kset)); KSETS[i].n=1; }
      snap_take();
      if(!cr_session(s,seed,0,0,create,nops,0)) return;
      if(KS->rc_open){ run_fail("open","session %d: %s failed with %d: %.500s",s,create?"create":"open after a clean close",KS->rc_open,SH->err); return; }
      u64 m[6]; memcpy(m,KS->mark,sizeof m); check_history(); if(RES.failed) return; kset_copy(KA,KSETS);
      if(s<prior){ havedb=1; continue; }
      /* the same again, to be killed */
      int points=OPT.has_p[5]?OPT.p[5]:8;
      for(int k=0;k<points&&!RES.failed;k++){
         int ph=rng_below(&r,10); ph=ph<4?PH_CLOSE:ph<7?PH_START:PH_OPS; int kind=rng_chance(&r,0.5)?1:2; int b=kind==1?0:1; u64 lo=ph==PH_START?0:ph==PH_OPS?m[b]:m[2+b], hi=ph==PH_START?m[b]:ph==PH_OPS?m[2+b]:m[4+b];
         u64 span=hi>lo?hi-lo:1; u64 at; switch(rng_below(&r,3)){ case 0: at=lo+rng_below(&r,span); break; case 1: at=lo+rng_logu(&r,1,span)-1; break; default: { u64 d=rng_logu(&r,1,span); at=lo+span-d; } }
         if(ph==PH_OPS&&rng_chance(&r,0.4)){ kind=1; at=m[0]+rng_logu(&r,200,60000); }
         if(kind==1&&at==0) at=1;
         snap_put(); kset_copy(KSETS,KB);
         if(!cr_session(s,seed,kind,at,create,nops,0)) return;
         RES.cov[CV_CRASHIMG]++;
         int real=!KS->opened?PH_START:KS->closed?PH_CLOSED:KS->closing?PH_CLOSE:PH_OPS; RES.cov[CV_CR0+real]++;
         char w[300]; ctx(w,sizeof w,s,create,kind,at,real,lo,hi);
         if(OPT.verbose) fprintf(stderr,"crash %d: %s\n",k,w);
         crash_judge(&r,s,seed,nops,create,havedb,kind,at,w); } } }

/* ---- storage faults. The process must not go on with wrong contents: every answer it gives is right, and what it leaves
 * behind when it stops is judged like a crash. Faults that need not cost anything (interruptions, refused submissions,
 * transfers cut short) may not stop it either. */
static void pick_faults(rng_t*r){
   sim_default_faults(&cr_fc); for(int k=0;k<F_NKINDS;k++) if(k!=F_SPURIOUS_WAKE&&k!=F_THREAD_STALL) cr_fc.prob[k]=0;
   static const int hard[]={F_READ_EIO,F_WRITE_EIO,F_READ_SHORT,F_WRITE_SHORT,F_AREAD_EIO,F_AWRITE_EIO}, soft[]={F_AREAD_SHORT,F_AWRITE_SHORT,F_SUBMIT_EAGAIN,F_GETEVENTS_EINTR};
   int m=rng_below(r,10); 
   if(m<6){ int n=rng_range(r,1,2); for(int i=0;i<n;i++) cr_fc.prob[hard[rng_below(r,6)]]=1.0/rng_logu(r,1,2000); }
   if(m>=4){ int n=rng_range(r,1,3); for(int i=0;i<n;i++) cr_fc.prob[soft[rng_below(r,4)]]=rng_chance(r,0.3)?0.3:1.0/rng_logu(r,3,2000); }
   cr_fc.count_limit=rng_chance(r,0.4)?rng_range(r,1,3):rng_logu(r,5,20000); cr_faults=rng_below(r,5); if(cr_faults>=3) cr_faults=PH_OPS; cr_fc.enabled=cr_faults==PH_START; }
static void run_fault(void){
   int full=prof("diskfull"); make_plan(OPT.seed); for(u32 i=0;i<P.K;i++){ memset(&KSETS[i],0,sizeof(kset)); KSETS[i].n=1; }
   if(!KB){ KB=raw_malloc(sizeof(kset)*MAXK); KA=raw_malloc(sizeof(kset)*MAXK); }
   DC.max_key_size=P.keymax<24?24:P.keymax; KS->ev=0; rng_t r; rng_seed(&r,OPT.seed,0xfa017);
   int havedb=0; int n=rng_range(&r,1,full?3:4);
   for(int s=0;s<n&&!RES.failed;s++){
      int create=s==0; u64 seed=hash2(OPT.seed,1000+s); int nops=rng_chance(&r,0.1)?0:rng_logu(&r,20,P.nops[s]); kset_copy(KB,KSETS); 
      if(full) cr_faults=-1; else if(s==0&&n>1&&rng_chance(&r,0.5)) cr_faults=-1; else pick_faults(&r);
      int ok=cr_session(s,seed,0,0,create,nops,rng_chance(&r,0.7)); int fc=cr_faults; cr_faults=-1; if(!ok) return;
      u64 nf=0; for(int k=F_READ_EIO;k<=F_GETEVENTS_EINTR;k++) nf+=SH->faults[k]; char why[700]; snprintf(why,sizeof why,"%.600s",SH->msg);
      if(cr_st==SIM_OK&&KS->rc_open){ /* refused, in order */
         u64 hardf=0; for(int k=F_READ_EIO;k<=F_AWRITE_EIO;k++) hardf+=SH->faults[k];
         if(!hardf&&!KS->cov[CV_DISKFULL]){ run_fail("open","session %d: %s failed with %d without a failed transfer: %.500s",s,create?"create":"open after a clean close",KS->rc_open,SH->err); return; }
         RES.cov[CV_ERRRET]++; int rc=KS->rc_open; if(create) return;
         /* the file is as it was */
         kset_copy(KSETS,KB); if(!cr_session(s,rng_next(&r),0,0,0,0,1)){ return; }
         if(KS->rc_open){ run_fail("open","session %d: open failed with %d because of an I/O fault; the next one, without any, failed with %d: %.500s",s,rc,KS->rc_open,SH->err); return; }
         check_history(); RES.checked++; if(RES.failed||cr_st!=SIM_OK) return; continue; }
      int opened=KS->opened; if(opened){ check_history(); if(RES.failed){ char m[1500]; snprintf(m,sizeof m,"%.1200s",RES.msg); snprintf(RES.msg,sizeof RES.msg,"session %d with %llu storage faults: %.1200s",s,(unsigned long long)nf,m); return; } }
      RES.checked++;
      if(cr_st==SIM_OK){ if(!KS->closed){ run_fail("internal","session did not finish"); return; } havedb=1; continue; }
      /* it stopped */
      RES.cov[CV_FAILSTOP]++; kset_copy(KA,KSETS); int ph=!KS->opened?PH_START:KS->closed?PH_CLOSED:KS->closing?PH_CLOSE:PH_OPS; RES.cov[CV_CR0+ph]++;
      if(OPT.verbose) fprintf(stderr,"stopped in %s: %s\n",PHN[ph],why);
      char w[900]; snprintf(w,sizeof w,"session %d (%s) stopped in %s after %llu storage faults (%.500s)",s,create?"create":"open",PHN[ph],(unsigned long long)nf,why); (void)fc;
      crash_judge(&r,s,seed,nops,create,havedb,0,0,w); return; }
   /* whatever happened, the contents are there */
   if(!RES.failed&&havedb){ if(!cr_session(7,rng_next(&r),0,0,0,0,1)) return; if(cr_st==SIM_ABORT) return; if(KS->rc_open){ run_fail("open","last open after %d sessions failed with %d: %.500s",n,KS->rc_open,SH->err); return; } check_history(); if(RES.failed){ char m[1500]; snprintf(m,sizeof m,"%.1200s",RES.msg); snprintf(RES.msg,sizeof RES.msg,"after sessions with storage faults: %.1200s",m); } } }

/* ---- failing start: something create, open, a lookup, a scan or a registration needs is refused. */
static void run_initfail(void){
   make_plan(OPT.seed); for(u32 i=0;i<P.K;i++){ memset(&KSETS[i],0,sizeof(kset)); KSETS[i].n=1; }
   if(!KB){ KB=raw_malloc(sizeof(kset)*MAXK); KA=raw_malloc(sizeof(kset)*MAXK); }
   DC.max_key_size=P.keymax<24?24:P.keymax; KS->ev=0; rng_t r; rng_seed(&r,OPT.seed,0x1f417); int prior=rng_below(&r,3), points=OPT.has_p[5]?OPT.p[5]:8;
   for(int s=0;s<=prior&&!RES.failed;s++){
      int create=s==0; u64 seed=hash2(OPT.seed,1000+s); int nops=rng_logu(&r,5,P.nops[s]); kset_copy(KB,KSETS); snap_take();
      if(!cr_session(s,seed,0,0,create,nops,0)) return;
      if(KS->rc_open){ run_fail("open","session %d: %s failed with %d: %.500s",s,create?"create":"open after a clean close",KS->rc_open,SH->err); return; }
      u64 opp[F_NKINDS]; memcpy(opp,KS->opp,sizeof opp); check_history(); if(RES.failed) return; if(s<prior) continue;
      for(int k=0;k<points&&!RES.failed;k++){
         sim_default_faults(&cr_fc); char what[100];
         int ops=rng_chance(&r,0.3); 
         if(ops){ cr_fc.prob[F_MALLOC]=1.0/rng_logu(&r,1,60); cr_fc.count_limit=rng_logu(&r,1,1000); cr_faults=PH_OPS; cr_fc.enabled=0; snprintf(what,sizeof what,"allocations refused in lookups, scans and registrations"); }
         else { int n=0,ks[F_NKINDS]; for(int q=F_MALLOC;q<=F_MUTEX_INIT;q++) if(opp[q]) ks[n++]=q; int q=ks[rng_below(&r,n)]; if(rng_chance(&r,0.5)) q=F_MALLOC; u64 at=rng_chance(&r,0.5)?rng_below(&r,opp[q]):rng_logu(&r,1,opp[q])-1; cr_fc.nth[q]=at; cr_faults=PH_START; cr_fc.enabled=1; snprintf(what,sizeof what,"%s refused at call %llu of %llu",fault_name[q],(unsigned long long)at+1,(unsigned long long)opp[q]); }
         snap_put(); kset_copy(KSETS,KB); cr_retry=1;
         int ok=cr_session(s,seed,0,0,create,rng_chance(&r,0.5)||ops?nops:0,1); int mode=cr_faults; cr_retry=0; cr_faults=-1; RES.cov[CV_INITFAIL]++; RES.checked++;
         if(OPT.verbose) fprintf(stderr,"point %d: session %d (%s), %s: %s, first rc %d, rc %d\n",k,s,create?"create":"open",what,sim_status_name[cr_st],KS->failed1,KS->rc_open);
         if(!ok){ if(RES.failed){ char m[1500]; snprintf(m,sizeof m,"%.1200s",RES.msg); snprintf(RES.msg,sizeof RES.msg,"session %d (%s), %s: %.1200s",s,create?"create":"open",what,m); } return; }
         if(cr_st==SIM_ABORT){ RES.cov[CV_FAILSTOP]++; char w[900]; int ph=!KS->opened?PH_START:KS->closed?PH_CLOSED:KS->closing?PH_CLOSE:PH_OPS; if(KS->opened) check_history(); if(RES.failed) return; kset_copy(KA,KSETS);
            snprintf(w,sizeof w,"session %d (%s), %s: stopped in %s (%.400s)",s,create?"create":"open",what,PHN[ph],SH->msg);
            if(mode==PH_START&&ph!=PH_START){ run_fail("abort","%s",w); return; }
            if(mode==PH_START&&!create){ /* opening stopped before anything could be written: nothing is lost */
               kset_copy(KSETS,KB); if(!cr_session(7,rng_next(&r),0,0,0,0,1)) return; if(KS->rc_open){ run_fail("open","after %s: open failed with %d: %.300s",w,KS->rc_open,SH->err); return; } check_history(); if(RES.failed) return; continue; }
            crash_judge(&r,s,seed,nops,create,prior>0,0,0,w); continue; }
         if(KS->failed1) RES.cov[CV_ERRRET]++;
         if(KS->rc_open){ run_fail("open","session %d (%s), %s: failed with %d, and again with %d without any fault: %.400s",s,create?"create":"open",what,KS->failed1,KS->rc_open,SH->err); return; }
         if(!KS->closed){ run_fail("internal","session did not finish"); return; }
         check_history(); if(RES.failed){ char m[1500]; snprintf(m,sizeof m,"%.1200s",RES.msg); snprintf(RES.msg,sizeof RES.msg,"session %d (%s), %s: %.1200s",s,create?"create":"open",what,m); return; }
         if(rng_chance(&r,0.3)){ if(!cr_session(7,rng_next(&r),0,0,0,0,1)) return; if(KS->rc_open){ run_fail("open","reopen failed with %d: %.500s",KS->rc_open,SH->err); return; } check_history(); } } } }
