/* Whole-database harness: seeded sessions of concurrent clients against the public API, every
 * operation recorded and checked per key against the reference model in lin.c. */
#include "platform.h"
#include "splinterdb/splinterdb.h"
#include "splinterdb_tests_private.h"
#include "util.h"
#undef min
#undef max
#include "harness.h"
#include "lin.h"
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include "poison.h"

/* ------------------------------------------------------------------ plan */
enum { O_INS, O_DEL, O_UPD, O_GET, O_SCAN, O_ALOOK, O_NOPS };
typedef struct {
   int nepochs, nthreads[8]; u32 nops[8];
   u32 K; int keystyle; u32 keymax; int cmp_rev;
   u32 vmin, vmax;
   int w[O_NOPS];                    /* op weights */
   int dist; u32 hot;                /* key distribution */
   u32 scan_max; int async_depth;
   u64 memtable_ext, fanout, maxbr, cache_pages[8], disk_mb;
   int nmt[8], nnorm[8]; int qscale; int use_log, use_stats, use_shmem; u64 filt_rem, filt_idx, rough; u64 reclaim; u64 qdepth;
   u64 node_kv;                      /* 0: leave as configured */
   int final_reads, rereg, poison, leakcheck, statscalls, destroy, odirect;
   int maint;                        /* per mille: force flush, stats, cache flush calls */
} plan;
static plan P;

#define MAXK 6000
static u8  KEYB[MAXK][112]; static u16 KEYL[MAXK]; static u32 SORTED[MAXK], RANK[MAXK];

/* ------------------------------------------------------------------ shared with the child */
#define MAXHOP 3000000u
typedef struct { u32 nhop; u64 ev; int rc_open; int opened; int closing, closed; u64 inuse_open, inuse_close; u64 cov[64]; u64 ops; u64 inuse_max; u64 extcap; u64 jstart; int nepdone; u64 crashwrites; int nrefused; u64 state; u64 mark[8]; u64 opp[F_NKINDS]; int failed1; u64 meta_head, samples[64]; u32 nsamples; } kvsh;
static kvsh *KS; static hop *HOPS;
static kset *KSETS; /* parent only */

enum { CV_ROT, CV_COMPACT, CV_LSPLIT, CV_ISPLIT, CV_FLUSH, CV_HEIGHT, CV_LOOKUPHIT, CV_LOOKUPMISS, CV_SCANKEYS, CV_ASYNCIO, CV_REFUSED, CV_ACCEPTED, CV_CRASHIMG, CV_FAILSTOP, CV_ERRRET, CV_REOPEN, CV_EVICT, CV_UPDMERGE, CV_INITFAIL, CV_DISKFULL, CV_EXTFREED, CV_CR0, CV_CR1, CV_CR2, CV_CR3, CV_FAR, CV_N };
static const char *COVN[]={"memtable_rotations","compactions","leaf_splits","index_splits","flushes","height_sum","lookup_hits","lookup_misses","scan_keys","async_suspensions","open_refused","open_accepted","crash_images","fail_stops","error_returns","reopens","device_reads","merges","failed_starts","disk_full_hits","extents_freed","crashes_in_open","crashes_in_use","crashes_in_close","crashes_after_close","large_devices",0};

/* ------------------------------------------------------------------ values */
#define VMAG 0x5a11c0deu
#define UMAG 0x0bada7e5u
typedef struct __attribute__((packed)) { u64 tag; u64 h; u32 cnt; u32 mag; } vhdr;
typedef struct __attribute__((packed)) { u64 tag; u64 a,b; u32 cnt; u32 mag; } uhdr;
static u32 padlen(u64 x){ u64 r=hash2(x,77); return P.vmin+(u32)(r%(P.vmax-P.vmin+1)); }
static void padfill(u8*p,u32 n,u64 s){ u64 x=hash2(s,99); for(u32 i=0;i<n;i++){ if(!(i&7)) x=x*6364136223846793005ull+1442695040888963407ull; p[i]=(u8)(x>>(8*(i&7))); } }
static int padcheck(const u8*p,u32 n,u64 s){ u64 x=hash2(s,99); for(u32 i=0;i<n;i++){ if(!(i&7)) x=x*6364136223846793005ull+1442695040888963407ull; if(p[i]!=(u8)(x>>(8*(i&7)))) return 0; } return 1; }
static u32 val_make(u8*b,u32 key,u64 h,u32 cnt){ vhdr v={hash2(key,1),h,cnt,VMAG}; u32 n=padlen(h); memcpy(b,&v,sizeof v); padfill(b+sizeof v,n,h); return sizeof v+n; }
static u32 upd_make(u8*b,u32 key,u64 a,u64 bb,u32 cnt){ uhdr v={hash2(key,1),a,bb,cnt,UMAG}; u32 n=padlen(a^bb)/2; memcpy(b,&v,sizeof v); padfill(b+sizeof v,n,a^bb); return sizeof v+n; }
static int val_parse(const void*d,u64 n,u32 key,kstate*s,const char*what){
   vhdr v; if(n<sizeof v) sim_fail(SIM_USER,"%s: value of key #%u has impossible length %llu",what,key,(unsigned long long)n);
   memcpy(&v,d,sizeof v); 
   if(v.mag!=VMAG) sim_fail(SIM_USER,"%s: value of key #%u (length %llu) is not a value that was ever written (bad header %08x)",what,key,(unsigned long long)n,v.mag);
   if(v.tag!=hash2(key,1)) sim_fail(SIM_USER,"%s: value returned for key #%u belongs to another key",what,key);
   if(n!=sizeof v+padlen(v.h)) sim_fail(SIM_USER,"%s: value of key #%u has length %llu, expected %u",what,key,(unsigned long long)n,(unsigned)(sizeof v+padlen(v.h)));
   if(!padcheck((const u8*)d+sizeof v,n-sizeof v,v.h)) sim_fail(SIM_USER,"%s: value of key #%u has corrupted contents",what,key);
   s->present=1; s->h=v.h; s->cnt=v.cnt; return 1; }
static void upd_parse(const void*d,u64 n,u32 key,uhdr*u,const char*what){
   if(n<sizeof *u) sim_fail(SIM_USER,"%s: update message for key #%u has impossible length",what,key);
   memcpy(u,d,sizeof *u); if(u->mag!=UMAG||u->tag!=hash2(key,1)) sim_fail(SIM_USER,"%s: message handed to the merge callback for key #%u is not an update of that key (magic %08x)",what,key,u->mag);
   if(n!=sizeof *u+padlen(u->a^u->b)/2||!padcheck((const u8*)d+sizeof *u,n-sizeof *u,u->a^u->b)) sim_fail(SIM_USER,"%s: update message for key #%u is corrupted",what,key); }

/* ------------------------------------------------------------------ keys */
static int rawcmp(const u8*a,u64 na,const u8*b,u64 nb){ u64 n=na<nb?na:nb; for(u64 i=0;i<n;i++) if(a[i]!=b[i]) return a[i]<b[i]?-1:1; return na<nb?-1:na>nb; }
static int ucmp(const u8*a,u64 na,const u8*b,u64 nb){ int r=rawcmp(a,na,b,nb); return P.cmp_rev?-r:r; }
static int sortcmp(const void*a,const void*b){ u32 x=*(u32*)a,y=*(u32*)b; return ucmp(KEYB[x],KEYL[x],KEYB[y],KEYL[y]); }
/* every key ends with its index in three bytes */
static int key_index(slice k){ const u8*d=slice_data(k); u64 n=slice_length(k); if(n<3||n>112) return -1; u32 i=d[n-3]|d[n-2]<<8|d[n-1]<<16; if(i>=P.K||KEYL[i]!=n) return -1; for(u64 j=0;j<n;j++) if(d[j]!=KEYB[i][j]) return -1; return i; }
static void make_keys(u64 seed){
   rng_t r; rng_seed(&r,seed,0x4e75);
   for(u32 i=0;i<P.K;i++){ u8*b=KEYB[i]; u32 n=0; u64 h=hash2(seed,i);
      switch(P.keystyle){
      case 0: for(int k=0;k<8;k++) b[n++]=(u8)(h>>(56-8*k)); break;                 /* spread */
      case 1: for(int k=0;k<4;k++) b[n++]=(u8)(i>>(24-8*k)); break;                 /* dense, in order */
      case 2: { u32 l=h%12; for(u32 k=0;k<l;k++) b[n++]='a'+((h>>(8+k*3))&1); break; } /* shared prefixes, differing lengths */
      case 3: { u32 l=rng_range(&r,1,P.keymax-3); u32 pre=l>8?l-8:0; for(u32 k=0;k<pre;k++) b[n++]='x'; for(u32 k=pre;k<l;k++) b[n++]=(u8)(h>>(8*(k-pre))); break; }
      default: break; }
      if(n>P.keymax-3) n=P.keymax-3;
      b[n++]=i&255; b[n++]=i>>8&255; b[n++]=i>>16&255; KEYL[i]=n; SORTED[i]=i; }
   qsort(SORTED,P.K,4,sortcmp); for(u32 i=0;i<P.K;i++) RANK[SORTED[i]]=i; }
static slice kslice(u32 i){ return slice_create(KEYL[i],KEYB[i]); }

/* ------------------------------------------------------------------ data config */
static int dc_cmp(const data_config*c,slice a,slice b){ (void)c; sim_sched_point(); return ucmp(slice_data(a),slice_length(a),slice_data(b),slice_length(b)); }
static int dc_merge(const data_config*c,slice k,message old,merge_accumulator*nw){
   (void)c; int key=key_index(k); if(key<0) sim_fail(SIM_USER,"merge callback called with a key that was never written");
   KS->cov[CV_UPDMERGE]++;
   if(merge_accumulator_message_class(nw)!=MESSAGE_TYPE_UPDATE) sim_fail(SIM_USER,"merge callback: new message of key #%d is of class %d, not an update",key,merge_accumulator_message_class(nw));
   uhdr u; upd_parse(merge_accumulator_data(nw),merge_accumulator_length(nw),key,&u,"merge callback (new)");
   u8 buf[4096]; u32 n;
   if(message_class(old)==MESSAGE_TYPE_INSERT){ kstate s; val_parse(message_data(old),message_length(old),key,&s,"merge callback (old)"); s.h=s.h*u.a+u.b; s.cnt+=u.cnt; n=val_make(buf,key,s.h,s.cnt); if(!merge_accumulator_resize(nw,n)) return -1; memcpy(merge_accumulator_data(nw),buf,n); merge_accumulator_set_class(nw,MESSAGE_TYPE_INSERT); }
   else if(message_class(old)==MESSAGE_TYPE_UPDATE){ uhdr o; upd_parse(message_data(old),message_length(old),key,&o,"merge callback (old)"); n=upd_make(buf,key,o.a*u.a,o.b*u.a+u.b,o.cnt+u.cnt); if(!merge_accumulator_resize(nw,n)) return -1; memcpy(merge_accumulator_data(nw),buf,n); }
   else sim_fail(SIM_USER,"merge callback: old message of key #%d has class %d",key,message_class(old));
   sim_sched_point(); return 0; }
static int dc_final(const data_config*c,slice k,merge_accumulator*ma){
   (void)c; int key=key_index(k); if(key<0) sim_fail(SIM_USER,"final-merge callback called with a key that was never written");
   if(merge_accumulator_message_class(ma)!=MESSAGE_TYPE_UPDATE) sim_fail(SIM_USER,"final-merge callback: message of key #%d has class %d, not update",key,merge_accumulator_message_class(ma));
   uhdr u; upd_parse(merge_accumulator_data(ma),merge_accumulator_length(ma),key,&u,"final-merge callback");
   if(key_volatile(key)){ merge_accumulator_resize(ma,0); merge_accumulator_set_class(ma,MESSAGE_TYPE_DELETE); return 0; }
   u8 buf[4096]; u32 n=val_make(buf,key,kst_seed(key)*u.a+u.b,u.cnt); if(!merge_accumulator_resize(ma,n)) return -1; memcpy(merge_accumulator_data(ma),buf,n); merge_accumulator_set_class(ma,MESSAGE_TYPE_INSERT); return 0; }
static void dc_kstr(const data_config*c,slice k,char*s,uint64 n){ (void)c; snprintf(s,n,"#%d",key_index(k)); }
static void dc_mstr(const data_config*c,message m,char*s,uint64 n){ (void)c;(void)m; snprintf(s,n,"msg"); }
static data_config DC;

/* ------------------------------------------------------------------ plan generation */
static int prof(const char*p){ return !strcmp(OPT.profile,p); }
static void setw(int a,int b,int c,int d,int e,int f){ int x[]={a,b,c,d,e,f}; memcpy(P.w,x,sizeof x); }
static void make_plan(u64 seed){
   rng_t r; rng_seed(&r,seed,0x91a7); memset(&P,0,sizeof P); 
   P.nepochs=1; int big=rng_chance(&r,OPT.thorough?0.35:0.15);
   static const u32 Ks[]={20,60,150,400,900,1800}; P.K=Ks[rng_below(&r,6)]; if(big) P.K=4000;
   P.keystyle=rng_below(&r,4); P.keymax=P.keystyle==3?rng_range(&r,24,100):24; P.cmp_rev=rng_chance(&r,0.2);
   switch(rng_below(&r,5)){ case 0: P.vmin=0;P.vmax=16; break; case 1: P.vmin=50; P.vmax=150; break; case 2: P.vmin=0;P.vmax=1200; break; case 3: P.vmin=300;P.vmax=700; break; default: P.vmin=900;P.vmax=1300; }
   P.dist=rng_below(&r,5); P.hot=rng_range(&r,3,40);
   switch(rng_below(&r,4)){ case 0: setw(60,10,0,30,0,0); break; case 1: setw(30,10,25,35,1,0); break; case 2: setw(40,20,10,25,2,0); break; default: setw(70,5,5,18,1,0); }
   P.scan_max=rng_logu(&r,4,200);
   u32 T=rng_range(&r,1,6); u32 total=rng_logu(&r,400,big?9000:4200);
   int micro=rng_chance(&r,0.3); P.memtable_ext=micro?10:rng_chance(&r,0.75)?11:12; static const u8 fo[]={2,3,4,6,8,8}; P.fanout=fo[rng_below(&r,6)];
   P.maxbr=rng_range(&r,4,10);
   P.disk_mb=rng_chance(&r,0.8)?128:256; 
   P.qscale=rng_chance(&r,0.6)?100:rng_below(&r,3)*50; P.use_log=rng_chance(&r,0.2); P.use_stats=rng_chance(&r,0.75); P.use_shmem=rng_chance(&r,0.12);
   P.filt_rem=rng_chance(&r,0.6)?0:rng_range(&r,2,8); P.filt_idx=rng_chance(&r,0.7)?0:256; P.rough=rng_chance(&r,0.8)?1:0; P.reclaim=0;
   P.qdepth=rng_chance(&r,0.5)?256:32*rng_range(&r,1,8); P.odirect=rng_chance(&r,0.3);
   if(OPT.p[2]) P.filt_rem=OPT.p[2];
   { u64 flush=P.memtable_ext==10?8192:(P.memtable_ext-10)*128*1024; /* data in one memtable; a node holds several, as in every real configuration (default: fanout x memtable) */
     P.node_kv=flush*P.fanout*rng_range(&r,60,130)/100; if(P.node_kv<3*flush) P.node_kv=3*flush; u64 lo=4*(P.maxbr+8)*4096; if(P.node_kv<lo) P.node_kv=lo*rng_range(&r,100,160)/100; }
   P.final_reads=1; P.rereg=rng_chance(&r,0.3); P.poison=1; P.leakcheck=1; P.statscalls=rng_chance(&r,0.1); P.maint=rng_chance(&r,0.3)?2:0;
   P.async_depth=1;
   if(prof("update")){ P.K=Ks[rng_below(&r,4)]; setw(12,6,55,25,1,0); if(rng_chance(&r,0.4)) setw(3,2,75,20,1,0); }
   else if(prof("scan")){ setw(38,14,12,12,6,0); if(P.K<150) P.K=150; P.scan_max=rng_logu(&r,20,600); }
   else if(prof("async")||prof("async-gc")){ setw(35,8,8,8,0,40); if(prof("async")){ total/=2; if(P.memtable_ext==10) P.memtable_ext=12; } P.async_depth=rng_range(&r,1,8); if(rng_chance(&r,0.5)) P.nepochs=2; }
   else if(prof("reopen")){ P.nepochs=rng_range(&r,2,5); total/=2; if(P.w[O_SCAN]==0) P.w[O_SCAN]=1; if(hash2(OPT.seed,0xd15c)%10==0) P.disk_mb=513+hash2(OPT.seed,0xd15d)%700; }
   else if(prof("space")){ setw(45,20,15,15,1,0); P.nepochs=rng_range(&r,1,4); P.leakcheck=0; }
   else if(prof("churn")||prof("churn-trunk")||prof("churn-log")){ P.K=Ks[rng_below(&r,3)]; if(P.w[O_SCAN]==0) P.w[O_SCAN]=1; P.w[O_GET]/=3; if(rng_chance(&r,0.3)) P.w[O_DEL]*=3; P.memtable_ext=10; P.dist=0; total=rng_logu(&r,4000,14000); P.disk_mb=256; P.use_stats=1; P.use_log=prof("churn-log"); P.leakcheck=0; if(!prof("churn")) total=14000; if(P.vmax<300){ P.vmin=300; P.vmax=700; } }
   else if(prof("crash")){ total=rng_logu(&r,60,2500); if(P.w[O_SCAN]==0) P.w[O_SCAN]=1; }
   else if(prof("initfail")){ total=rng_logu(&r,60,1500); T=rng_range(&r,1,2); if(P.w[O_SCAN]==0) P.w[O_SCAN]=3; P.poison=0; }
   else if(prof("iofault")){ total=rng_logu(&r,100,3000); P.leakcheck=0; if(P.w[O_SCAN]==0) P.w[O_SCAN]=1; }
   else if(prof("diskfull")){ total=rng_logu(&r,300,6000); P.leakcheck=0; if(P.w[O_SCAN]==0) P.w[O_SCAN]=1; P.disk_mb=rng_logu(&r,7,24); }
   else if(prof("progress")){ T=rng_range(&r,2,14); if(P.w[O_SCAN]==0) P.w[O_SCAN]=1; }
   else if(prof("point")){ if(rng_chance(&r,0.15)) P.nepochs=2; P.w[O_UPD]/=3; P.w[O_GET]+=15; }
   if(OPT.p[4]){ if(P.K<1500) P.K=1800; if(P.vmin<300){ P.vmin=300; P.vmax=1300; } if(total<3000) total=3000; P.memtable_ext=11; }
   if(OPT.p[6]){ /* deep trunk: few children per node, many leaves */ P.disk_mb=3072; P.use_shmem=0; P.K=rng_range(&r,2500,5500); if(P.w[O_INS]<40) P.w[O_INS]=40; P.vmin=800; P.vmax=rng_range(&r,900,1300); P.fanout=P.nepochs>1?4:rng_range(&r,2,4); /* the trunk has at most 8 levels */ P.maxbr=rng_range(&r,4,6); P.memtable_ext=rng_chance(&r,0.7)?10:11; P.dist=rng_chance(&r,0.7)?0:P.dist; total=P.nepochs>1?rng_range(&r,3000,7000):rng_range(&r,5000,12000);
     u64 flush=P.memtable_ext==10?8192:128*1024, lo=4*(P.maxbr+8)*4096; P.node_kv=flush*P.fanout*rng_range(&r,60,130)/100; if(P.node_kv<3*flush) P.node_kv=3*flush; if(P.node_kv<lo) P.node_kv=lo*rng_range(&r,100,130)/100; }
   if(prof("flood")){ P.K=rng_range(&r,3000,5500); setw(90,2,4,4,0,0); P.vmin=50; P.vmax=150; P.fanout=8; P.maxbr=24; P.memtable_ext=10; P.dist=0; P.node_kv=0; total=9000; T=rng_range(&r,1,2); P.leakcheck=0; if(T==1){ P.keystyle=3; P.keymax=100; } }
   if(OPT.max_threads&&T>(u32)OPT.max_threads) T=OPT.max_threads;
   for(int e=0;e<8;e++){ P.nthreads[e]=e==0?T:(int)rng_range(&r,1,T); P.nops[e]=total/P.nthreads[e]; if(OPT.max_ops&&P.nops[e]>OPT.max_ops) P.nops[e]=OPT.max_ops;
      P.cache_pages[e]=64*rng_range(&r,OPT.has_p[0]?OPT.p[0]:16,OPT.has_p[0]?OPT.p[0]:64); if(e&&rng_chance(&r,0.6)) P.cache_pages[e]=P.cache_pages[0];
      int bg=rng_chance(&r,0.65); P.nmt[e]=bg?rng_range(&r,1,2):0; P.nnorm[e]=bg?rng_range(&r,1,3):0; if(e&&rng_chance(&r,0.5)){ P.nmt[e]=P.nmt[0]; P.nnorm[e]=P.nnorm[0]; } }
   if(prof("space")) for(int e=1;e<P.nepochs;e++) if(rng_chance(&r,0.35)) P.nops[e]=0;
   if(OPT.has_p[1]) P.poison=OPT.p[1];
   if(OPT.verbose) fprintf(stderr,"plan seed=%llu: epochs=%d threads=%d nops=%u K=%u style=%d keymax=%u rev=%d val=%u..%u w=%d/%d/%d/%d/%d/%d dist=%d mt_ext=%llu fanout=%llu maxbr=%llu cache=%llu bg=%d/%d qscale=%d log=%d stats=%d shm=%d frem=%llu fidx=%llu rough=%llu reclaim=%llu qd=%llu node_kv=%llu odirect=%d\n",(unsigned long long)seed,P.nepochs,P.nthreads[0],P.nops[0],P.K,P.keystyle,P.keymax,P.cmp_rev,P.vmin,P.vmax,P.w[0],P.w[1],P.w[2],P.w[3],P.w[4],P.w[5],P.dist,(unsigned long long)P.memtable_ext,(unsigned long long)P.fanout,(unsigned long long)P.maxbr,(unsigned long long)P.cache_pages[0],P.nmt[0],P.nnorm[0],P.qscale,P.use_log,P.use_stats,P.use_shmem,(unsigned long long)P.filt_rem,(unsigned long long)P.filt_idx,(unsigned long long)P.rough,(unsigned long long)P.reclaim,(unsigned long long)P.qdepth,(unsigned long long)P.node_kv,P.odirect);
   make_keys(seed);
}
static void make_cfg(splinterdb_config*c,int ep){
   memset(c,0,sizeof *c); c->filename="simdisk"; c->cache_size=P.cache_pages[ep]*4096; c->disk_size=P.disk_mb<<20; c->data_cfg=&DC;
   c->memtable_capacity=P.memtable_ext*65536; c->fanout=P.fanout; c->max_branches_per_node=P.maxbr; c->use_log=P.use_log; c->use_stats=P.use_stats; c->use_shmem=P.use_shmem; c->shmem_size=192ull<<20;
   c->num_memtable_bg_threads=P.nmt[ep]; c->num_normal_bg_threads=P.nnorm[ep]; c->queue_scale_percent=P.qscale; c->filter_remainder_size=P.filt_rem; c->filter_index_size=P.filt_idx; c->btree_rough_count_height=P.rough; c->reclaim_threshold=P.reclaim; c->io_async_queue_depth=P.qdepth;
   if(P.odirect) c->io_flags=O_RDWR|O_CREAT|O_DIRECT; }

/* ------------------------------------------------------------------ clients */
static splinterdb *DB; static trunk_handle *SPL; static int EPOCH;
static u64 ev(void){ return ++KS->ev; }
static hop *newhop(int type,u32 key,int tid,int src){ if(KS->nhop>=MAXHOP) sim_fail(SIM_STEPLIMIT,"history buffer full"); hop*h=&HOPS[KS->nhop++]; memset(h,0,sizeof *h); h->type=type;h->key=key;h->tid=tid;h->src=src; return h; }
static void rd(u32 key,int tid,int src,u64 inv,const kstate*s){ hop*h=newhop(OP_READ,key,tid,src); h->inv=inv; h->resp=ev(); h->done=1; if(s) h->r=*s; }

/* calls which may meet a failing allocation (profile initfail) */
static int FAULTCALLS; static u64 fc_hits;
#define FCALL(x) do{ u64 f0_=SH->faults[F_MALLOC]; if(FAULTCALLS){ sim_fault_fiber=sim_self(); sim_faults.enabled=1; } x; if(FAULTCALLS){ sim_faults.enabled=0; sim_fault_fiber=-1; if(SH->faults[F_MALLOC]!=f0_) fc_hits++; } }while(0)
static int do_get(u32 key,int tid,int src,rng_t*r){
   u8 lb[2048]; u64 bl=r?(rng_below(r,3)==0?0:rng_below(r,2048)):1024; splinterdb_lookup_result lr; splinterdb_lookup_result_init(DB,&lr,bl,bl?(char*)lb:NULL);
   int reps=r&&rng_chance(r,0.1)?2:1; 
   for(int i=0;i<reps;i++){ hop*h=newhop(OP_READ,key,tid,src); h->inv=ev(); int rc; FCALL(rc=splinterdb_lookup(DB,kslice(key),&lr)); 
      if(rc){ KS->cov[CV_ERRRET]++; h->type=OP_READ; h->done=0; splinterdb_lookup_result_deinit(&lr); return rc; }
      h->resp=ev(); 
      if(splinterdb_lookup_found(&lr)){ slice v; if(splinterdb_lookup_result_value(&lr,&v)) sim_fail(SIM_USER,"lookup_result_value failed on a found key"); val_parse(slice_data(v),slice_length(v),key,&h->r,"lookup"); KS->cov[CV_LOOKUPHIT]++; } else KS->cov[CV_LOOKUPMISS]++;
      h->done=1; sim_progress(); KS->ops++; }
   splinterdb_lookup_result_deinit(&lr); return 0; }
static int do_write(int type,u32 key,int tid,u64 id){
   u8 b[4096]; u32 n=0; if(type==O_INS){ kstate s=kst_insert(id); n=val_make(b,key,s.h,0); } else if(type==O_UPD){ u64 a,bb; upd_coeff(id,&a,&bb); n=upd_make(b,key,a,bb,1); }
   /* the library gets exact-size heap copies, so that overreads are noticed */
   u8*kb=malloc(KEYL[key]); memcpy(kb,KEYB[key],KEYL[key]); u8*vb=malloc(n?n:1); memcpy(vb,b,n);
   hop*h=newhop(type==O_INS?OP_INSERT:type==O_DEL?OP_DELETE:OP_UPDATE,key,tid,0); h->id=id; h->inv=ev();
   slice ks=slice_create(KEYL[key],kb), vs=slice_create(n,vb); int rc;
   if(type==O_INS) rc=splinterdb_insert(DB,ks,vs); else if(type==O_DEL) rc=splinterdb_delete(DB,ks); else rc=splinterdb_update(DB,ks,vs);
   memset(kb,0xEE,KEYL[key]); memset(vb,0xEE,n); free(kb); free(vb);
   if(rc){ KS->cov[CV_ERRRET]++; h->resp=0; h->done=0; return rc; } /* failed: may or may not have happened */
   h->resp=ev(); h->done=1; sim_progress(); KS->ops++; return 0; }

/* scan: cursor between universe ranks. cur = rank of current key, or -1 (before all), K (after all) */
/* a second read of a key by one scan with an unchanged answer says nothing new (its window contains the first one's) */
typedef struct { u64 *seen; } scanmem;
static void rdscan(scanmem*m,u32 key,int tid,int src,u64 inv,const kstate*s){ u64 v=s?hash3(s->h,s->cnt,1)|1:2; if(m->seen[key]==v) return; m->seen[key]=v; rd(key,tid,src,inv,s); }
#define absent(lo,hi,tid,src,inv) absent_(&M,lo,hi,tid,src,inv)
static void absent_(scanmem*m,i64 lo,i64 hi,int tid,int src,u64 inv){ for(i64 i=lo;i<hi;i++) rdscan(m,SORTED[i],tid,src,inv,0); }
static int scan_here(scanmem*m,splinterdb_iterator*it,int tid,int src,u64 inv){ slice k,v; splinterdb_iterator_get_current(it,&k,&v); int key=key_index(k); if(key<0) sim_fail(SIM_USER,"scan returned a key (length %llu) that was never written",(unsigned long long)slice_length(k)); kstate s; memset(&s,0,sizeof s); val_parse(slice_data(v),slice_length(v),key,&s,"scan"); rdscan(m,key,tid,src,inv,&s); KS->cov[CV_SCANKEYS]++; sim_progress(); return key; }
static int do_scan(int tid,int src,i64 start,int from_null,rng_t*r,u32 steps,double pback){
   splinterdb_iterator*it=0; scanmem M; M.seen=raw_malloc(8*P.K); memset(M.seen,0,8*P.K); u64 inv=ev(); slice st=from_null?NULL_SLICE:kslice(SORTED[start]); i64 K=P.K;
   u8*kb=0; if(!from_null){ kb=malloc(slice_length(st)); memcpy(kb,slice_data(st),slice_length(st)); st=slice_create(slice_length(st),kb); }
   int rc; FCALL(rc=splinterdb_iterator_init(DB,&it,st)); if(rc){ if(kb) free(kb); KS->cov[CV_ERRRET]++; raw_free(M.seen); return rc; }
   if(kb){ memset(kb,0xEE,slice_length(st)); free(kb); }
   KS->ops++;
   i64 gap=from_null?0:start;   /* everything in [gap, cur) was skipped */
   i64 c; int where; /* 0 on a key, 1 off the end, -1 off the beginning */
   for(u32 n=0;;n++){
      if(n==0){ if(splinterdb_iterator_valid(it)){ c=RANK[scan_here(&M,it,tid,src,inv)]; if(c<gap) sim_fail(SIM_USER,"scan started at rank %lld returned smaller key of rank %lld",(long long)gap,(long long)c); absent(gap,c,tid,src,inv); where=0; }
         else { absent(gap,K,tid,src,inv); c=K; where=1; } }
      if(splinterdb_iterator_status(it)) { rc=splinterdb_iterator_status(it); KS->cov[CV_ERRRET]++; break; }
      if(n>=steps) break;
      int cn=splinterdb_iterator_can_next(it), cp=splinterdb_iterator_can_prev(it), va=splinterdb_iterator_valid(it);
      if(va!=(where==0)) sim_fail(SIM_USER,"iterator valid=%d although position is %d",va,where);
      if(where==0&&!cn) sim_fail(SIM_USER,"iterator on a key but can_next is false");
      if(where==0&&!cp) sim_fail(SIM_USER,"iterator on a key but can_prev is false");
      if(where==1&&cn) sim_fail(SIM_USER,"iterator past the end but can_next is true");
      if(where==-1&&cp) sim_fail(SIM_USER,"iterator before the beginning but can_prev is true");
      int back; if(where==1){ if(!cp||pback==0) break; back=1; } else if(where==-1){ if(!cn||pback==1) break; back=0; } else back=r?rng_chance(r,pback):pback>=1;
      if(OPT.verbose>1) fprintf(stderr,"scan t%d step %u at rank %lld where %d %s\n",tid,n,(long long)c,where,back?"prev":"next");
      FCALL(if(back) splinterdb_iterator_prev(it); else splinterdb_iterator_next(it));
      if(splinterdb_iterator_valid(it)){ i64 x=RANK[scan_here(&M,it,tid,src,inv)];
         if(!back){ i64 from=where==-1?-1:c; if(x<=from) sim_fail(SIM_USER,"scan moved forward from rank %lld to rank %lld",(long long)from,(long long)x); absent(from+1,x,tid,src,inv); }
         else { i64 from=where==1?K:c; if(x>=from) sim_fail(SIM_USER,"scan moved backward from rank %lld to rank %lld",(long long)from,(long long)x); absent(x+1,from,tid,src,inv); }
         c=x; where=0; }
      else { if(splinterdb_iterator_status(it)){ rc=splinterdb_iterator_status(it); KS->cov[CV_ERRRET]++; break; }
         if(!back){ absent(c<0?0:c+1,K,tid,src,inv); where=1; c=K; } else { absent(0,c>K?K:c,tid,src,inv); where=-1; c=-1; } }
   }
   splinterdb_iterator_deinit(it); raw_free(M.seen); sim_progress(); return rc; }

/* asynchronous lookups: up to async_depth in flight per client */
typedef struct { int busy; volatile int ready; int waits; u32 key; u64 inv; hop*h; trunk_async_ctxt ctxt; merge_accumulator ma; u64 cbs; } aslot;
static void async_cb(trunk_async_ctxt*c){ aslot*s=(aslot*)((u8*)c-offsetof(aslot,ctxt)); if(!s->busy||s->waits!=1) sim_fail(SIM_USER,"asynchronous lookup callback for a lookup that is not waiting for I/O (busy=%d, waits=%d)",s->busy,s->waits); s->waits=0; s->ready=1; s->cbs++; }
static int async_poll(aslot*s,int tid){ /* returns 1 when finished */
   if(!s->ready) return 0; s->ready=0; key k=key_create_from_slice(kslice(s->key)); s->waits=1; 
   cache_async_result res=trunk_lookup_async(SPL,k,&s->ma,&s->ctxt);
   switch(res){ case async_locked: case async_no_reqs: s->waits=0; s->ready=1; return 0; case async_io_started: KS->cov[CV_ASYNCIO]++; return 0; case async_success: break; default: sim_fail(SIM_USER,"asynchronous lookup returned %d",res); }
   if(s->waits!=1) sim_fail(SIM_USER,"asynchronous lookup finished but its callback also ran");
   s->waits=0; s->h->resp=ev(); if(!merge_accumulator_is_null(&s->ma)){ message m=merge_accumulator_to_message(&s->ma); if(message_class(m)!=MESSAGE_TYPE_INSERT) sim_fail(SIM_USER,"asynchronous lookup produced a message of class %d",message_class(m)); val_parse(message_data(m),message_length(m),s->key,&s->h->r,"async lookup"); } s->h->done=1; merge_accumulator_deinit(&s->ma); s->busy=0; sim_progress(); KS->ops++; return 1; }
static void async_start(aslot*s,u32 key,int tid){ memset(s,0,sizeof *s); s->busy=1; s->ready=1; s->key=key; merge_accumulator_init(&s->ma,SPL->heap_id); trunk_async_ctxt_init(&s->ctxt,async_cb); s->h=newhop(OP_READ,key,tid,3); s->h->inv=ev(); }

typedef struct { int tid; u32 lo, hi; int kind; } carg;
static carg CA[64];
static u32 pick_key(rng_t*r,int tid,u32 i,int ep){
   switch(P.dist){ case 0: return rng_below(r,P.K);
    case 1: return rng_chance(r,0.5)?rng_below(r,P.hot<P.K?P.hot:P.K):rng_below(r,P.K);
    case 2: return (i+tid*(P.K/7+1)+ep*37)%P.K;                                    /* sequential by index */
    case 3: return SORTED[(i*3+tid*(P.K/5+1))%P.K];                                /* sequential in key order */
    default: { u64 x=rng_below(r,P.K); u64 y=rng_below(r,P.K); return SORTED[x<y?x:y]; } } }
static volatile int ops_stop;
/* Writers let background work catch up every few memtables: a node's bundle numbers wrap at 12
 * (see known findings), which a thread stalled for that long would run into. */
static volatile u64 quiet_gen;
static void flow(void){
   for(int n=0;memtable_generation(SPL->mt_ctxt)>=quiet_gen+(u64)(OPT.has_p[3]?OPT.p[3]:6);n++){
      task_system*ts=(task_system*)splinterdb_get_task_system_handle(DB);
      if(task_system_is_quiescent(ts)){ quiet_gen=memtable_generation(SPL->mt_ctxt); break; }
      if(P.nnorm[EPOCH]==0) task_perform_one(ts);
      sim_spin_yield(); } }
static void client(void*a){
   carg*ca=a; int tid=ca->tid; u64 base=((u64)EPOCH<<40)|((u64)tid<<32); int depth=P.async_depth; aslot*AS=malloc(sizeof(aslot)*depth); memset(AS,0,sizeof(aslot)*depth);
   FCALL(splinterdb_register_thread(DB));
   u32 hi=ca->hi; for(u32 i=ca->lo;i<hi&&!ops_stop;i++){
      u64 id=base|i; if(op_skipped(id)) continue;
      rng_t r; rng_seed(&r,hash2(OPT.seed,id),0xc11e);
      int tw=0; for(int k=0;k<O_NOPS;k++) tw+=P.w[k]; int x=rng_below(&r,tw),op=0; while(x>=P.w[op]) x-=P.w[op++]; if(ca->kind==1) op=O_ALOOK; else if(ca->kind==2) op=rng_chance(&r,0.8)?O_GET:O_SCAN; else if(ca->kind==3) op=rng_below(&r,3); else if(ca->kind==4&&op==O_ALOOK) op=O_GET;
      u32 key=pick_key(&r,tid,i,EPOCH); int rc=0; if(op<=O_UPD&&ca->kind!=3&&!prof("flood")) flow();
      switch(op){ case O_INS: case O_DEL: case O_UPD: rc=do_write(op,key,tid,id); break;
       case O_GET: rc=do_get(key,tid,0,&r); break;
       case O_SCAN: { double pb=rng_chance(&r,0.4)?0:rng_chance(&r,0.3)?1:0.35; rc=do_scan(tid,1,rng_below(&r,P.K),rng_chance(&r,0.15),&r,rng_range(&r,1,P.scan_max),pb); break; }
       case O_ALOOK: { int s; for(s=0;s<depth&&AS[s].busy;s++); if(s==depth){ s=rng_below(&r,depth); while(!async_poll(&AS[s],tid)){ cache_cleanup(SPL->cc); sim_spin_yield(); } } async_start(&AS[s],key,tid); break; } }
      for(int s=0;s<depth;s++) if(AS[s].busy&&rng_chance(&r,0.6)) async_poll(&AS[s],tid);
      if(P.maint&&ca->kind!=3&&rng_below(&r,1000)<(u64)P.maint){ switch(rng_below(&r,2)){ case 1: splinterdb_stats_print_lookup(DB); break; default: cache_cleanup(SPL->cc); } }
      if(P.rereg&&ca->kind==0&&!AS[0].busy&&rng_chance(&r,0.004)){ int any=0; for(int s=0;s<depth;s++) any|=AS[s].busy; if(!any){ splinterdb_deregister_thread(DB); sim_yield(); FCALL(splinterdb_register_thread(DB)); } }
      if(rc) {}
   }
   for(int s=0;s<depth;s++) while(AS[s].busy){ if(!async_poll(&AS[s],tid)){ cache_cleanup(SPL->cc); sim_spin_yield(); } }
   splinterdb_deregister_thread(DB); free(AS); sim_progress();
}
static int CN; static u32 alo[64];
static void spawn_clients(int kind,int n,u32 ops,int*ids,int*k){ for(int t=0;t<n;t++){ int x=*k; carg*c=&CA[x]; c->tid=x; c->kind=kind; c->lo=alo[x]; c->hi=alo[x]+=ops; ids[(*k)++]=sim_spawn(client,c,1); } }
static void quiesce(void){ task_system*ts=(task_system*)splinterdb_get_task_system_handle(DB); for(int q=0;q<3;){ if(task_system_is_quiescent(ts)) q++; else { q=0; if(P.nnorm[EPOCH]==0) task_perform_one(ts); } sim_spin_yield(); } quiet_gen=memtable_generation(SPL->mt_ctxt); }
/* Rounds of writing, then of asynchronous lookups next to synchronous readers and writers. Asynchronous lookups are not
 * protected from garbage collection (known finding), so the writers of the second part stay within one memtable. */
static void async_rounds(int ep){
   rng_t r; rng_seed(&r,hash2(OPT.seed,ep),0xa57); int rounds=rng_range(&r,2,5); int T=P.nthreads[ep]; memset(alo,0,sizeof alo); (void)CN;
   for(int q=0;q<rounds;q++){ int ids[64],k=0;
      spawn_clients(4,T,P.nops[ep]/rounds+1,ids,&k); for(int i=0;i<k;i++) sim_wait_fiber(ids[i]);
      /* start from a fresh memtable */
      u64 g=memtable_generation(SPL->mt_ctxt); u64 id=((u64)ep<<40)|(61ull<<32)|(u64)q<<24; int fill=0; while(memtable_generation(SPL->mt_ctxt)==g&&fill++<700){ do_write(O_INS,rng_below(&r,P.K),61,id++); flow(); }
      int fresh=memtable_generation(SPL->mt_ctxt)!=g; quiesce(); g=memtable_generation(SPL->mt_ctxt);
      if(rng_chance(&r,0.85)){ cache_flush(SPL->cc); cache_evict(SPL->cc,TRUE); }
      k=0; u32 na=rng_range(&r,1,4), ns=rng_below(&r,3), nw=rng_below(&r,3); u32 wbytes=rng_range(&r,0,30000);
      spawn_clients(1,na,rng_logu(&r,10,250),ids,&k); spawn_clients(2,ns,rng_logu(&r,5,60),ids,&k); if(nw&&fresh) spawn_clients(3,nw,wbytes/(P.keymax+P.vmax+120)/nw,ids,&k);
      for(int i=0;i<k;i++) sim_wait_fiber(ids[i]);
      if(memtable_generation(SPL->mt_ctxt)!=g) sim_fail(SIM_INTERNAL,"the memtable rotated in a phase of few writes: na %u ns %u nw %u wbytes %u per client %u, ext %u, fresh %d",na,ns,nw,wbytes,nw?(unsigned)(wbytes/(P.keymax+P.vmax+120)/nw):0,(unsigned)P.memtable_ext,fresh); } }
static void harvest(void){ /* shape reached, for coverage only */
   KS->cov[CV_ROT]+=memtable_generation(SPL->mt_ctxt); 
   u64 c=0,ls=0,is=0,fl=0; if(P.use_stats&&SPL->stats){ for(int t=0;t<MAX_THREADS;t++){ trunk_stats*s=&SPL->stats[t]; c+=s->root_compactions; ls+=s->leaf_splits; is+=s->index_splits; fl+=s->root_full_flushes+s->root_count_flushes; for(int h=0;h<TRUNK_MAX_HEIGHT;h++){ c+=s->compactions[h]; fl+=s->full_flushes[h]+s->count_flushes[h]; } } }
   KS->cov[CV_COMPACT]+=c; KS->cov[CV_LSPLIT]+=ls; KS->cov[CV_ISPLIT]+=is; KS->cov[CV_FLUSH]+=fl; KS->state=hash2(KS->state,hash3(c,ls,hash3(is,fl,memtable_generation(SPL->mt_ctxt)))); }

static void final_reads(void){
   for(u32 i=0;i<P.K;i++) do_get(i,60,2,0);
   do_scan(60,4,0,1,0,P.K*2,0); 
   do_scan(60,4,P.K-1,0,0,P.K*2,1); }
static void note_full(void){ KS->cov[CV_DISKFULL]++; SH->faults[F_DISK_FULL]++; }
static void apply_tuning(void){ poison_full=note_full; SPL=(trunk_handle*)splinterdb_get_trunk_handle(DB); if(P.node_kv){ SPL->cfg.max_kv_bytes_per_node=P.node_kv; SPL->cfg.target_leaf_kv_bytes=P.node_kv/2; } if(P.poison) poison_install((allocator*)splinterdb_get_allocator_handle(DB)); }

/* ---- space: everything in use must be what the destruction of the database gives back */
static u64 BASE_INUSE, META_HEAD; /* parent; children inherit them */
static void destroy_and_account(const char*when){
   allocator*al=(allocator*)splinterdb_get_allocator_handle(DB); char b[1500]; int n=0; b[0]=0;
   SPL->mini.meta_head=META_HEAD?META_HEAD:SPL->mini.meta_head; /* a mounted trunk does not know it */
   trunk_destroy(SPL); u64 u=allocator_in_use(al);
   if(BASE_INUSE&&u!=BASE_INUSE){ poison_dump(al,b,sizeof b); sim_fail(SIM_USER,"%s: the database was destroyed, but %lld extents%s are still in use (%llu instead of %llu): %s",when,(long long)(u>BASE_INUSE?u-BASE_INUSE:BASE_INUSE-u),u>BASE_INUSE?"":" too few",(unsigned long long)u,(unsigned long long)BASE_INUSE,b); }
   (void)n; KS->inuse_close=u; KS->closed=1; sim_progress(); sim_exit_ok(); }
static void base_main(void*arg){ (void)arg; splinterdb_config cfg; make_cfg(&cfg,0); KS->rc_open=splinterdb_create(&cfg,&DB); if(KS->rc_open) return; apply_tuning(); destroy_and_account("empty database"); }
static void space_rounds(int ep){
   rng_t r; rng_seed(&r,hash2(OPT.seed,ep),0x59ace); allocator*al=(allocator*)splinterdb_get_allocator_handle(DB);
   KS->inuse_open=allocator_in_use(al); if(ep==0) KS->meta_head=SPL->mini.meta_head;
   int churn=!strncmp(OPT.profile,"churn",5); i64 live=(i64)P.K*(P.keymax+P.vmax+80)/131072+1, bound=(i64)KS->inuse_open+110+8*live;
   int rounds=P.nops[ep]?rng_range(&r,churn?6:1,churn?14:5):0; memset(alo,0,sizeof alo);
   for(int q=0;q<rounds;q++){ int ids[64],k=0; spawn_clients(4,P.nthreads[ep],P.nops[ep]/rounds+1,ids,&k); for(int i=0;i<k;i++) sim_wait_fiber(ids[i]); quiesce();
      /* the trunk's old nodes and the log are never given back while the database is open: known findings, shown by the last two profiles */
      i64 use=allocator_in_use(al); if(!prof("churn-trunk")) use-=poison_type_net(PAGE_TYPE_TRUNK); if(!prof("churn-log")) use-=poison_type_net(PAGE_TYPE_LOG);
      KS->samples[KS->nsamples++]=use;
      if(use>bound){ char b[1500]; b[0]=0; poison_dump(al,b,sizeof b); sim_fail(SIM_USER,"space in use is not bounded: %lld extents with all background work done, %llu when the database was opened, for at most %lld extents of live data (trunk %+lld, log %+lld since then): %s",(long long)use,(unsigned long long)KS->inuse_open,(long long)live,(long long)poison_type_net(PAGE_TYPE_TRUNK),(long long)poison_type_net(PAGE_TYPE_LOG),b); } } }
static void after_close_checks(void){
   if(!P.leakcheck) return;
   if(sim_fds_open||sim_aio_ctx_open||sim_threads_live) sim_fail(SIM_USER,"after close: %d file descriptors, %d aio contexts, %d threads still held",sim_fds_open,sim_aio_ctx_open,sim_threads_live);
   if(sim_mmaps_open||sim_shm_open) sim_fail(SIM_USER,"after close: %d mappings, %d shared segments still held",sim_mmaps_open,sim_shm_open);
   char b[600]; if(sim_heap_leaks(b,sizeof b)) sim_fail(SIM_USER,"after close: memory still held: %s",b); }

/* a large device: bring the allocator to where the reference counts need another page, as long use would */
static void far_side(int ep){ allocator*al=(allocator*)splinterdb_get_allocator_handle(DB); u64 to=4096-hash2(OPT.seed,ep+0xfa5)%300, a=0; for(int i=0;i<5000;i++){ if(!SUCCESS(allocator_alloc(al,&a,PAGE_TYPE_MISC))) return; allocator_dec_ref(al,a,PAGE_TYPE_MISC); allocator_dec_ref(al,a,PAGE_TYPE_MISC); sim_progress(); if(a/131072>=to&&a/131072<to+400) break; } KS->cov[CV_FAR]++; }
static void epoch_main(void*arg){
   int ep=(int)(i64)arg; EPOCH=ep; splinterdb_config cfg; make_cfg(&cfg,ep);
   KS->rc_open=ep==0?splinterdb_create(&cfg,&DB):splinterdb_open(&cfg,&DB);
   sim_progress();
   if(KS->rc_open){ return; }
   KS->opened=1; if(P.disk_mb>512) far_side(ep); apply_tuning(); quiet_gen=memtable_generation(SPL->mt_ctxt);
   if(ep>0&&P.final_reads) final_reads();
   if(prof("async")) async_rounds(ep); else if(prof("space")||!strncmp(OPT.profile,"churn",5)) space_rounds(ep); else {
   int ids[64]; for(int t=0;t<P.nthreads[ep];t++){ CA[t].tid=t; CA[t].kind=0; CA[t].lo=0; CA[t].hi=P.nops[ep]; ids[t]=sim_spawn(client,&CA[t],1); }
   for(int t=0;t<P.nthreads[ep];t++) sim_wait_fiber(ids[t]); }
   if(P.final_reads) final_reads();
   harvest();
   if(P.statscalls){ splinterdb_stats_print_insertion(DB); splinterdb_stats_print_lookup(DB); splinterdb_stats_reset(DB); }
   if((prof("space")||prof("churn"))&&ep==P.nepochs-1) destroy_and_account("last session");
   KS->closing=1; splinterdb_close(&DB); KS->closed=1; KS->cov[CV_EXTFREED]+=poison_count(); sim_progress();
   after_close_checks();
}
/* ------------------------------------------------------------------ parent */
static int hopcmp(const void*a,const void*b){ const hop*x=*(hop**)a,*y=*(hop**)b; if(x->key!=y->key) return x->key<y->key?-1:1; return x->inv<y->inv?-1:x->inv>y->inv; }
static hop **HP;
static void check_history(void){
   u32 n=KS->nhop; for(u32 i=0;i<n;i++) HP[i]=&HOPS[i]; 
   /* writes that failed keep done=0 (may or may not have happened); reads without answer are dropped by the checker */
   qsort(HP,n,sizeof *HP,hopcmp); char msg[1800];
   for(u32 i=0;i<n;){ u32 j=i; while(j<n&&HP[j]->key==HP[i]->key) j++; u32 key=HP[i]->key; u64 ev=0; int rc=lin_check(HP+i,j-i,&KSETS[key],key,msg,sizeof msg,&ev); RES.checked+=ev; if(rc==0){ run_fail("linearizability","%s",msg); return; } if(rc<0){ RES.inconclusive++; KSETS[key].n=0; } i=j; } }
static void epoch_reset(void){ u64 e=KS->ev; memset(KS,0,sizeof *KS); KS->ev=e; }
static void account(void){ for(int i=0;i<CV_N;i++) RES.cov[i]+=KS->cov[i]; RES.ops+=KS->ops; RES.statehash=hash2(RES.statehash,KS->state); RES.cov[CV_EVICT]+=SH->io_areads+SH->io_reads; }
static void kv_init(void){
   KS=shared_alloc(sizeof *KS); HOPS=shared_alloc(sizeof(hop)*(u64)MAXHOP); KSETS=raw_malloc(sizeof(kset)*MAXK); HP=raw_malloc(sizeof(hop*)*(u64)MAXHOP);
   DC=(data_config){.max_key_size=105,.key_compare=dc_cmp,.key_hash=platform_hash32,.merge_tuples=dc_merge,.merge_tuples_final=dc_final,.key_to_string=dc_kstr,.message_to_string=dc_mstr};
   platform_set_log_streams(fopen("/dev/null","w"),sim_err_stream()); }
static void run_plain(void){
   make_plan(OPT.seed); for(u32 i=0;i<P.K;i++){ memset(&KSETS[i],0,sizeof(kset)); KSETS[i].n=1; }
   DC.max_key_size=P.keymax<24?24:P.keymax; KS->ev=0;
   BASE_INUSE=META_HEAD=0; u64 uopen=0; int noop=0;
   if(prof("space")||prof("churn")){ sched_cfg sc; fault_cfg fc; rng_t r; rng_seed(&r,OPT.seed,0xba5e); sim_default_sched(&sc,&r); sim_default_faults(&fc); epoch_reset(); sim_hang_limit=60000000; int st=run_epoch(base_main,0,hash2(OPT.seed,99),&sc,&fc); if(st!=SIM_OK||!KS->closed){ run_fail(sim_status_name[st],"creating and destroying an empty database: %s",SH->msg); return; } BASE_INUSE=KS->inuse_close; disk_reset(); }
   for(int e=0;e<P.nepochs&&!RES.failed;e++){
      rng_t r; rng_seed(&r,hash2(OPT.seed,e),0x5c4ed); sched_cfg sc; fault_cfg fc; sim_default_sched(&sc,&r); sim_default_faults(&fc);
      epoch_reset(); sim_hang_limit=60000000; 
      int st=run_epoch(epoch_main,(void*)(i64)e,hash2(OPT.seed,100+e),&sc,&fc); account();
      if(st!=SIM_OK){ if(st==SIM_STEPLIMIT||st==SIM_TIMEOUT){ RES.inconclusive++; return; } run_fail(sim_status_name[st],"epoch %d: %s: %s",e,sim_status_name[st],SH->msg); return; }
      if(KS->rc_open){ run_fail("open","epoch %d: %s failed with %d: %.600s",e,e?"open after a clean close":"create",KS->rc_open,SH->err); return; }
      if(!KS->closed){ run_fail("internal","epoch did not finish"); return; }
      if(prof("space")||!strncmp(OPT.profile,"churn",5)){ if(e==0) META_HEAD=KS->meta_head; RES.checked+=KS->nsamples+1; 
         if(OPT.verbose){ fprintf(stderr,"space epoch %d: base %llu open %llu samples",e,(unsigned long long)BASE_INUSE,(unsigned long long)KS->inuse_open); for(u32 i=0;i<KS->nsamples;i++) fprintf(stderr," %llu",(unsigned long long)KS->samples[i]); fprintf(stderr,"\n"); }
         if(noop&&KS->inuse_open!=uopen){ run_fail("space","session %d did nothing, but %llu extents were in use when it opened and %llu after the next open",e-1,(unsigned long long)uopen,(unsigned long long)KS->inuse_open); return; }
         uopen=KS->inuse_open; noop=P.nops[e]==0; }
      check_history(); if(e) RES.cov[CV_REOPEN]++;
   } }
#include "kv_crash.h"
static void run_kv(void){ if(prof("crash")) run_crash(); else if(prof("initfail")) run_initfail(); else if(prof("iofault")||prof("diskfull")) run_fault(); else run_plain(); }
harness H_kv={"kv",kv_init,run_kv,COVN};
REGISTER_HARNESS(H_kv)
