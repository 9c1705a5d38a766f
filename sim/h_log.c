/* C15: the write-ahead log. Several threads log to one or two logs next to other users of the cache; then what is volatile
   goes away (the cache is dropped, the process ends and the device is mounted again, or the process dies at an arbitrary
   point) and the log is iterated. */
#include "unit.h"
#include "log.h"
#include "shard_log.h"
#include "splinterdb/default_data_config.h"
static const char *COVN[]={"records","iterated","logs","released_logs","drops","remounts","kills","returned","certain","flushes","churn","empty_iterations","sealed_beyond",0};
enum { CV_REC, CV_IT, CV_LOGS, CV_REL, CV_DROP, CV_MNT, CV_KILL, CV_RET, CV_CERT, CV_FL, CV_CH, CV_EMPTY, CV_SB };
#define EXT 131072ull
#define MAXT 8
#define MAXR 1600
#define MAXL 6
typedef struct { u64 gen, t0, t1; u16 kl, ml; u8 type, seen; } rec;
typedef struct { u64 addr, magic, meta, uid, cert; int live, n[MAXT]; rec r[MAXT][MAXR/4]; } lg;
typedef struct { u64 clock, uid; lg l[MAXL]; } keep;
_Static_assert(sizeof(keep)<=sizeof(((ush*)0)->blob),"blob");
#define K ((keep*)US->blob)
enum { E_DROP, E_CLOSE, E_KILL };
static struct { int sessions, nt, nops, nl, cap, phases, q, stats, gmode, kl, ml, churn, end[4], rel, kpre; u64 disk; } A;
static uenv E; static cache *CC; static allocator *AL; static shard_log_config LC; static data_config DC; static log_handle *LH[MAXL]; static u64 CHX[8]; static int nchx, PH; static u64 gseq[MAXL];
static void content(u64 uid,int t,int i,int k,u8*b,int n){ u64 s=hash3(uid,(u64)t<<32|i,k?0xbeef:0xfeed); for(int j=0;j<n;j++) b[j]=(u8)(hash2(s,j/8)>>(j%8*8)); if(!k){ u64 id=uid<<32|(u64)t<<24|i; memcpy(b,&id,8); } }
static u64 newgen(int l,int t,rng_t*r){ u64 c=gseq[l]++; switch(A.gmode){ case 0: return c; case 1: return c*((u64)1<<(29+RND(4))); case 2: return rng_next(r)>>(1+RND(40)); case 3: return c/7; default: return RND(2)?c:c+(1ull<<31)*RND(8); } }
static void op_write(int l,int t,rng_t*r){ lg*g=&K->l[l]; int i=g->n[t]; if(i>=MAXR/4||!g->live) return; rec*c=&g->r[t][i]; c->kl=8+RND(RND(4)?A.kl:8); c->ml=RND(5)==0?0:RND(A.ml); c->type=c->ml?(RND(3)?MESSAGE_TYPE_INSERT:MESSAGE_TYPE_UPDATE):RND(2)?MESSAGE_TYPE_DELETE:MESSAGE_TYPE_INSERT; c->gen=newgen(l,t,r); c->seen=0; c->t1=~0ull;
   u8 kb[1100], mb[2100]; content(g->uid,t,i,0,kb,c->kl); content(g->uid,t,i,1,mb,c->ml); c->t0=++K->clock; g->n[t]=i+1;
   int rc=log_write(LH[l],key_create(c->kl,kb),message_create(c->type,slice_create(c->ml,mb)),c->gen); UCHK(rc==0,"log_write returned %d",rc); c->t1=++K->clock; US->cov[CV_REC]++; }
static void op_churn(rng_t*r){ if(!nchx) return; int e=RND(nchx); u64 a=CHX[e]+RND(32)*4096; page_handle*h=cache_get(CC,a,TRUE,PAGE_TYPE_BRANCH); UCHK(h->disk_addr==a&&*(u64*)h->data==hash2(a,5),"page %llu of another structure is wrong",(unsigned long long)a); cache_unget(CC,h); US->cov[CV_CH]++; }
static void client(int t){ UCHK(SUCCESS(task_register_this_thread(E.ts,0)),"register");
   for(int i=0;i<A.nops;i++){ u64 id=(u64)US->sess<<48|(u64)PH<<44|(u64)t<<32|i; if(op_skipped(id)) continue; rng_t r0=op_rng(id),*r=&r0; if(RND(100)<A.churn) op_churn(r); else { int l=RND(A.nl); op_write(l,platform_get_tid()%MAXT,r); } US->ops++; sim_progress(); }
   task_deregister_this_thread(E.ts); }
/* All records logged before this point in time are in pages which are complete and come before every incomplete page:
   a thread's last page was started after the record whose distance to the thread's last record exceeds a page. */
static u64 certain(lg*g){ u64 c=~0ull; for(int t=0;t<MAXT;t++) if(g->n[t]){ u64 s=0, ct=g->r[t][0].t0; for(int i=g->n[t]-1;i>=0;i--){ s+=g->r[t][i].kl+g->r[t][i].ml; if(s>4096){ ct=g->r[t][i].t1; break; } } if(ct<c) c=ct; } return c==~0ull?0:c; }
static void iterate(lg*g){ shard_log_iterator it; UCHK(SUCCESS(shard_log_iterator_init(CC,&LC,E.hid,g->addr,g->magic,&it)),"log iterator creation failed"); iterator*I=(iterator*)&it; u64 last=0, n=0; for(int t=0;t<MAXT;t++) for(int i=0;i<g->n[t];i++) g->r[t][i].seen=0; US->cov[CV_IT]++;
   while(iterator_can_next(I)){ key k; message m; iterator_curr(I,&k,&m); u64 kl=key_length(k), ml=message_length(m), id=0; UCHK(kl>=8&&kl<=1100&&ml<=2100,"record %llu has a key of %llu and a message of %llu bytes",(unsigned long long)n,(unsigned long long)kl,(unsigned long long)ml); memcpy(&id,key_data(k),8); u64 uid=id>>32; int t=id>>24&255, i=id&0xffffff;
      UCHK(uid==g->uid,"the log returned a record of another log (%llu instead of %llu)",(unsigned long long)uid,(unsigned long long)g->uid); UCHK(t<MAXT&&i<g->n[t],"the log returned a record which was never logged"); rec*c=&g->r[t][i]; UCHK(!c->seen,"record %d of thread %d returned twice",i,t); c->seen=1;
      u8 kb[1100],mb[2100]; content(g->uid,t,i,0,kb,c->kl); content(g->uid,t,i,1,mb,c->ml); UCHK(kl==c->kl&&!memcmp(kb,key_data(k),kl),"key of record %d of thread %d is wrong",i,t); UCHK(ml==c->ml&&!memcmp(mb,message_data(m),ml),"message of record %d of thread %d is wrong",i,t); UCHK(message_class(m)==c->type,"message type of record %d of thread %d is %d instead of %d",i,t,(int)message_class(m),c->type);
      UCHK(c->gen>=last,"record with generation %llu comes after generation %llu",(unsigned long long)c->gen,(unsigned long long)last); last=c->gen; n++; if(n%16==0) sim_progress(); UCHK(SUCCESS(iterator_next(I)),"log iterator failed"); }
   shard_log_iterator_deinit(E.hid,&it); US->cov[CV_RET]+=n; if(!n) US->cov[CV_EMPTY]++;
   for(int t=0;t<MAXT;t++){ int gap=0; for(int i=0;i<g->n[t];i++){ rec*c=&g->r[t][i]; if(!c->seen) gap=1; else UCHK(!gap,"record %d of thread %d is there but an earlier one is not",i,t); if(c->t1<=g->cert){ US->cov[CV_CERT]++; UCHK(c->seen,"record %d of %d of thread %d, in a complete page which was written out, is missing",i,g->n[t],t); } else if(c->seen) US->cov[CV_SB]++; } }
   sim_progress(); }
static void churn_up(rng_t*r){ nchx=A.churn?1+RND(6):0; for(int e=0;e<nchx;e++){ uint64 a; UCHK(SUCCESS(allocator_alloc(AL,&a,PAGE_TYPE_BRANCH)),"no space"); CHX[e]=a; for(int i=0;i<32;i++){ page_handle*h=cache_alloc(CC,a+i*4096,PAGE_TYPE_BRANCH); *(u64*)h->data=hash2(a+i*4096,5); cache_mark_dirty(CC,h); cache_unlock(CC,h); cache_unclaim(CC,h); cache_unget(CC,h); } sim_progress(); } }
static void main_(void*a){ int s=(int)(i64)a; rng_t r0,*r=&r0; rng_seed(r,OPT.seed,0x106); memset(&A,0,sizeof A);
   A.sessions=1+RND(4); for(int i=0;i<4;i++) A.end[i]=RND(4)==0?E_DROP:RND(2)?E_CLOSE:E_KILL; A.disk=(110+RND(90))*EXT;
   rng_seed(r,hash2(OPT.seed,s),0x107);
   A.nt=1+RND(RND(3)==0?MAXT-1:RND(2)?2:1); A.nl=1+RND(2); A.cap=64*(1+RND(6)); A.phases=1+RND(4); A.nops=1+rng_logu(r,RND(4)?60:2,400)/A.phases; if(OPT.max_ops&&A.nops>(int)OPT.max_ops) A.nops=OPT.max_ops; A.q=32<<RND(3); A.stats=RND(2); A.gmode=RND(5); A.kl=1+rng_logu(r,1,RND(3)?40:1000); A.ml=1+rng_logu(r,RND(3)?60:1,2000); A.churn=RND(3)?RND(60):0; A.rel=RND(3)==0; A.kpre=RND(3);
   if(OPT.has_p[0]) A.cap=64*OPT.p[0]; if(OPT.has_p[1]) A.churn=OPT.p[1]; if(A.cap<A.nt*44+64) A.cap=(A.nt*44+127)/64*64;
   int was_kill=s>0&&A.end[s-1]==E_KILL, last=s==A.sessions-1, end=A.end[s]; US->state=hash3(A.cap,A.nt,hash3(end,A.nl,s));
   uenv_up(&E,A.disk,(u64)A.cap*4096,0,0,A.q,A.stats,s>0&&!was_kill,0); AL=(allocator*)&E.al; CC=(cache*)&E.cc; default_data_config_init(1100,&DC); shard_log_config_init(&LC,(cache_config*)&E.cccfg,&DC);
   if(s==0||was_kill){ uint64 a0; UCHK(SUCCESS(allocator_alloc_super_addr(AL,7,&a0)),"super block address"); }
   if(s==0) DH->size=A.disk;
   if(was_kill){ /* reference counts died with the process: all extents are taken, so that the log can be read */
      for(int i=0;i<MAXL;i++) if(K->l[i].live){ uint64 x; static u64 ex[8192]; int n=0; while(SUCCESS(allocator_alloc(AL,&x,PAGE_TYPE_LOG))) if(n<4096) ex[n++]=x; (void)n; break; }
      for(int i=0;i<MAXL;i++) if(K->l[i].live){ iterate(&K->l[i]); K->l[i].live=0; }
      /* start over on a device which is full of old pages */
      cache_flush(CC); uenv_down(&E,1); unit_leakcheck(); uenv_up(&E,A.disk,(u64)A.cap*4096,0,0,A.q,A.stats,0,0); AL=(allocator*)&E.al; CC=(cache*)&E.cc; uint64 a0; UCHK(SUCCESS(allocator_alloc_super_addr(AL,7,&a0)),"super block address"); }
   else for(int i=0;i<MAXL;i++) if(K->l[i].live){ US->cov[CV_MNT]++; iterate(&K->l[i]); if(RND(2)){ mini_unkeyed_dec_ref(CC,K->l[i].meta,PAGE_TYPE_LOG,FALSE); K->l[i].live=0; US->cov[CV_REL]++; } }
   if(A.disk/EXT-allocator_in_use(AL)<75) for(int i=0;i<MAXL;i++) if(K->l[i].live){ mini_unkeyed_dec_ref(CC,K->l[i].meta,PAGE_TYPE_LOG,FALSE); K->l[i].live=0; US->cov[CV_REL]++; }
   u64 inuse0=allocator_in_use(AL);
   /* a log that is thrown away leaves its pages in the extents of the next */
   if(A.rel){ log_handle*h=log_create(CC,(log_config*)&LC,E.hid); UCHK(h!=0,"log_create"); int n=1+RND(60); u64 uid=++K->uid; for(int i=0;i<n;i++){ u8 kb[1100],mb[2100]; int kl=8+RND(A.kl), ml=RND(A.ml); content(uid,0,i,0,kb,kl); content(uid,0,i,1,mb,ml); UCHK(log_write(h,key_create(kl,kb),message_create(MESSAGE_TYPE_INSERT,slice_create(ml,mb)),i)==0,"log_write"); sim_progress(); } if(RND(2)){ cache_flush(CC); } log_release(h); platform_free(E.hid,h); US->cov[CV_REL]++; UCHK(allocator_in_use(AL)==inuse0,"a released log left %llu extents in use",(unsigned long long)((allocator_in_use(AL)-inuse0))); }
   churn_up(r); if(nchx&&RND(2)) cache_flush(CC);
   int slot[2]; lg*G[2];
   for(int l=0;l<A.nl;l++){ int k=0; while(k<MAXL&&(K->l[k].live||(l&&k==slot[0]))) k++; if(k==MAXL) k=l; slot[l]=k; G[l]=&K->l[k]; }
   /* clients address the logs by their slots */
   log_handle*lh[2]; for(int l=0;l<A.nl;l++){ lh[l]=log_create(CC,(log_config*)&LC,E.hid); UCHK(lh[l]!=0,"log_create failed"); lg*g=G[l]; memset(g,0,offsetof(lg,r)); g->addr=log_addr(lh[l]); g->magic=log_magic(lh[l]); g->meta=log_meta_addr(lh[l]); g->uid=++K->uid; g->live=1; US->cov[CV_LOGS]++; gseq[l]=0; sim_progress(); }
   if(A.nl==2&&slot[0]!=0){ } /* op_write uses indices 0..nl-1 of LH and K->l through this permutation */
   if(slot[0]!=0){ lg t=K->l[0]; K->l[0]=*G[0]; K->l[slot[0]]=t; if(A.nl==2&&slot[1]==0) slot[1]=slot[0]; slot[0]=0; }
   if(A.nl==2&&slot[1]!=1){ lg t=K->l[1]; K->l[1]=K->l[slot[1]]; K->l[slot[1]]=t; slot[1]=1; }
   for(int l=0;l<A.nl;l++) LH[l]=lh[l];
   int killph=-1; if(end==E_KILL&&!last) killph=RND(A.phases); if(killph==0&&A.kpre==0) sim_crash_step=sim_step()+rng_logu(r,100,60000);
   for(PH=0;PH<A.phases;PH++){ if(PH==killph&&!sim_crash_step) sim_crash_step=sim_step()+rng_logu(r,10,200000);
      unit_clients(client,A.nt);
      if(RND(3)==0){ u64 c[2]; for(int l=0;l<A.nl;l++) c[l]=certain(&K->l[l]); cache_flush(CC); for(int l=0;l<A.nl;l++) K->l[l].cert=c[l]; US->cov[CV_FL]++; sim_progress(); } }
   if(end==E_KILL&&!last){ /* late: it dies doing nothing in particular */ if(RND(2)) io_wait_all((io_handle*)&E.io); sim_crash_now(); }
   /* complete pages have been handed to the device when they were completed */
   if(end==E_CLOSE) cache_flush(CC);
   io_wait_all((io_handle*)&E.io); for(int l=0;l<A.nl;l++) K->l[l].cert=certain(&K->l[l]);
   if(end!=E_CLOSE||RND(3)==0){ if(RND(4)==0) for(int l=0;l<A.nl;l++) iterate(&K->l[l]); /* also with what is in the cache */
      clockcache_deinit(&E.cc); memset(&E.cc,0,sizeof E.cc); UCHK(SUCCESS(clockcache_init(&E.cc,&E.cccfg,(io_handle*)&E.io,AL,"again",E.hid,platform_get_module_id())),"cache start failed"); US->cov[CV_DROP]++;
      for(int l=0;l<A.nl;l++) iterate(&K->l[l]); }
   for(int l=0;l<A.nl;l++){ if(end==E_CLOSE&&RND(4)){ platform_free(E.hid,LH[l]); } else if(end==E_CLOSE){ log_release(LH[l]); platform_free(E.hid,LH[l]); K->l[l].live=0; US->cov[CV_REL]++; } else { platform_free(E.hid,LH[l]); K->l[l].live=0; } }
   if(end!=E_CLOSE) for(int i=0;i<MAXL;i++) K->l[i].live=0; 
   cache_flush(CC); uenv_down(&E,1); unit_leakcheck(); US->done=1; sim_progress(); }
static void run(void){ rng_t r; rng_seed(&r,OPT.seed,0x106); int n=1+rng_below(&r,4); disk_reset(); int ok=1; unit_crash_ok=1; memset(US->blob,0,sizeof(keep)); for(int s=0;s<n&&ok;s++){ sched_cfg sc; fault_cfg fc; unit_sched(s,&sc,&fc,1); sim_hang_limit=6000000; ok=unit_session(main_,s,&sc,&fc); if(ok==2) RES.cov[CV_KILL]++; } unit_crash_ok=0; }
static harness H_log={"log",unit_init,run,COVN}; REGISTER_HARNESS(H_log)
