/* C11: the extent allocator, over several sessions with everything in between on the simulated device. */
#include "unit.h"
static const char *COVN[]={"allocs","no_space","incs","decs","frees","shared_refs","reopens","super_addrs","super_removed",0};
enum { CV_A, CV_NS, CV_I, CV_D, CV_F, CV_SH, CV_RE, CV_SA, CV_SR };
#define EXT 131072ull
#define MAXE 8192
#define MAXT 8
/* model, kept across sessions in the shared block */
typedef struct { u8 owned[MAXE]; u8 hold[MAXT][MAXE]; u8 type[MAXE]; int nown; u64 cap, first; u64 sid[40]; u64 saddr[40]; int nsid; } model;
#define LIM (M->cap<MAXE?M->cap:MAXE)   /* a short run never gets beyond the first extents of a large device */
#define M ((model*)US->blob)
static struct { int sessions, nt, nops, cap, wa, wi, keep; } A;
static uenv E; static allocator *AL; static int sbusy, nalloc;
/* free_since[e]: the extent has been certainly free since that moment (0: not free) */
static u64 free_since[MAXE], gen[MAXE];

static int holders(int e);
static void do_alloc(int t,rng_t*r){
   u64 inv=++US->ev; uint64 addr=~0ull; int ty=PAGE_TYPE_TRUNK+RND(5); if(ty==PAGE_TYPE_SUPERBLOCK) ty=PAGE_TYPE_MISC;
   nalloc++; platform_status rc=allocator_alloc(AL,&addr,ty); nalloc--;
   if(!SUCCESS(rc)){ US->cov[CV_NS]++; UCHK(STATUS_IS_EQ(rc,STATUS_NO_SPACE),"allocation failed with %d",rc.r); int nf=0; for(u64 e=0;e<LIM;e++) nf+=free_since[e]&&free_since[e]<inv; /* another call in flight may already hold one of them */ UCHK(nf<=nalloc,"out of space was reported although %d extents were free during the whole call and %d other allocations were under way (%d of %llu extents owned)",nf,nalloc,M->nown,(unsigned long long)M->cap); return; }
   UCHK(addr%EXT==0&&addr/EXT<M->cap,"allocated address %llu is not an extent of the device",(unsigned long long)addr); u64 e=addr/EXT; UCHK(e<MAXE,"allocator skipped over %llu free extents",(unsigned long long)e); UCHK(e>=M->first,"allocated extent %llu is reserved for the super block",(unsigned long long)e);
   UCHK(!M->owned[e],"extent %llu was allocated twice (%d references still held)",(unsigned long long)e,holders(e)); M->owned[e]=1; M->type[e]=ty; M->nown++; free_since[e]=0; gen[e]++;
   u8 rf=allocator_get_refcount(AL,addr); UCHK(rf==AL_ONE_REF,"new extent %llu has reference count %d",(unsigned long long)e,rf); M->hold[t][e]=1; US->cov[CV_A]++; }
/* every reference belongs to a client; a client only duplicates, hands on or drops references that it holds */
static int pick(int t,rng_t*r){ int k=RND(LIM); for(u64 i=0;i<LIM;i++){ int e=(k+i)%LIM; if(M->hold[t][e]>0) return e; } return -1; }
static int holders(int e){ int n=0; for(int t=0;t<MAXT;t++) n+=M->hold[t][e]; return n; }
static void do_inc(int t,rng_t*r){ int e=pick(t,r); if(e<0||holders(e)>180) return; int other=holders(e); u8 v=allocator_inc_ref(AL,(u64)e*EXT); (void)other; UCHK(v>=AL_ONE_REF+1,"incrementing a reference of extent %d returned %d",e,v); UCHK(M->owned[e],"model"); M->hold[RND(A.nt)][e]++; US->cov[CV_I]++; if(holders(e)>1) US->cov[CV_SH]++; }
static void do_dec(int t,rng_t*r){ int e=pick(t,r); if(e<0) return; int ty=M->type[e]; M->hold[t][e]--; u8 v=allocator_dec_ref(AL,(u64)e*EXT,ty); US->cov[CV_D]++;
   UCHK(v>=AL_NO_REFS,"dropping a reference of extent %d made it free",e); if(v!=AL_NO_REFS) return;
   UCHK(holders(e)==0,"the last reference of extent %d is reported dropped while %d are held",e,holders(e)); v=allocator_get_refcount(AL,(u64)e*EXT); UCHK(v==AL_NO_REFS,"reference count of extent %d is %d before it is freed",e,v);
   M->owned[e]=0; M->nown--; u64 ev=gen[e]; v=allocator_dec_ref(AL,(u64)e*EXT,ty); UCHK(v==AL_FREE,"freeing extent %d returned %d",e,v);
   if(!M->owned[e]&&ev==gen[e]) free_since[e]=++US->ev; US->cov[CV_F]++; }
static void do_super(int t,rng_t*r){ if(sbusy) { uint64 a; if(M->nsid){ int i=RND(M->nsid); u64 id=M->sid[i], want=M->saddr[i]; (void)want; platform_status rc=allocator_get_super_addr(AL,id,&a); (void)rc; } return; } sbusy=1; uint64 a;
   if(M->nsid&&RND(4)==0){ int i=RND(M->nsid); allocator_remove_super_addr(AL,M->sid[i]); platform_status rc=allocator_get_super_addr(AL,M->sid[i],&a); UCHK(!SUCCESS(rc),"removed super block address is still found"); M->nsid--; M->sid[i]=M->sid[M->nsid]; M->saddr[i]=M->saddr[M->nsid]; US->cov[CV_SR]++; }
   else { u64 id=hash2(OPT.seed,++US->ev)|1; platform_status rc=allocator_alloc_super_addr(AL,id,&a); if(M->nsid>=30) UCHK(!SUCCESS(rc),"more than 30 super blocks were given out"); else { UCHK(SUCCESS(rc),"super block address refused with %d in use",M->nsid); UCHK(a%4096==0&&a>0&&a<EXT,"super block address %llu outside the super extent",(unsigned long long)a); for(int i=0;i<M->nsid;i++) UCHK(M->saddr[i]!=a,"super block address given out twice"); M->sid[M->nsid]=id; M->saddr[M->nsid++]=a; US->cov[CV_SA]++; } }
   for(int i=0;i<M->nsid;i++){ platform_status rc=allocator_get_super_addr(AL,M->sid[i],&a); UCHK(SUCCESS(rc)&&a==M->saddr[i],"super block address of table %d is wrong or missing",i); }
   sbusy=0; }
static void client(int t){ UCHK(SUCCESS(task_register_this_thread(E.ts,0)),"register");
   for(int i=0;i<A.nops;i++){ u64 id=(u64)US->sess<<48|(u64)t<<32|i; if(op_skipped(id)) continue; rng_t r0=op_rng(id),*r=&r0; int x=RND(100); if(x<A.wa) do_alloc(t,r); else if(x<A.wa+A.wi) do_inc(t,r); else if(x<98) do_dec(t,r); else do_super(t,r); US->ops++; sim_progress(); }
   task_deregister_this_thread(E.ts); }
static void agree(const char*w){
   for(u64 e=M->first;e<LIM;e++){ u8 v=allocator_get_refcount(AL,e*EXT); int want=M->owned[e]?holders(e)+1:0; UCHK(v==want,"%s: extent %llu has reference count %d, should be %d",w,(unsigned long long)e,v,want); }
   for(u64 e=0;e<M->first;e++) UCHK(allocator_get_refcount(AL,e*EXT)!=0,"%s: reserved extent %llu is free",w,(unsigned long long)e);
   u64 in=allocator_in_use(AL); UCHK(in==(u64)M->nown+M->first,"%s: %llu extents counted in use, should be %llu",w,(unsigned long long)in,(unsigned long long)(M->nown+M->first));
   UCHK(allocator_get_capacity(AL)==M->cap*EXT,"%s: capacity changed",w);
   for(int i=0;i<M->nsid;i++){ uint64 a=0; platform_status rc=allocator_get_super_addr(AL,M->sid[i],&a); UCHK(SUCCESS(rc)&&a==M->saddr[i],"%s: super block address %d lost",w,i); } }
static void main_(void*a){ int s=(int)(i64)a; rng_t r0,*r=&r0; rng_seed(r,OPT.seed,0x91a7); memset(&A,0,sizeof A);
   A.sessions=1+RND(4); A.cap=RND(2)?8+RND(40):32+RND(600); if(RND(40)==0) A.cap=4090+RND(12); if(RND(80)==0) A.cap=131066+RND(12); if(RND(40)==0) A.cap=4097+RND(3000); A.keep=RND(3)*4; A.wa=20+RND(45); A.wi=RND(35); A.nt=1+RND(6); A.nops=20+rng_logu(r,1,s?150:400); if(OPT.max_ops&&A.nops>(int)OPT.max_ops) A.nops=OPT.max_ops;
   if(s==0){ memset(M,0,sizeof *M); M->cap=A.cap; M->first=1+((M->cap+4095)/4096*4096+EXT-1)/EXT; }
   else for(int t=A.nt;t<MAXT;t++) for(u64 e=0;e<LIM;e++){ M->hold[t%A.nt][e]+=M->hold[t][e]; M->hold[t][e]=0; }
   US->state=hash3(A.cap,A.nt,s);
   uenv_up(&E,M->cap*EXT,0,0,0,64,0,s>0,0); AL=(allocator*)&E.al; sbusy=nalloc=0; u64 now=++US->ev; for(u64 e=0;e<MAXE;e++) free_since[e]=(e>=M->first&&e<LIM&&!M->owned[e])?now:0;
   if(s) US->cov[CV_RE]++;
   if(s==0){ uint64 a0; UCHK(SUCCESS(allocator_alloc_super_addr(AL,7,&a0)),"first super block"); M->sid[0]=7; M->saddr[0]=a0; M->nsid=1; }
   agree(s?"after mounting":"after creation");
   if(s==0&&M->cap>3000&&M->cap<=MAXE){ /* start anywhere on a device whose reference counts need more than one page */
      int n=RND(2)?M->cap-M->first-RND(60):1+RND(M->cap-M->first-1); for(int i=0;i<n;i++){ do_alloc(0,r); if(A.keep&&RND(A.keep)==0) continue; for(u64 e=M->first;e<LIM;e++) if(M->hold[0][e]&&gen[e]==1&&e+4>M->first+i){ M->hold[0][e]=0; allocator_dec_ref(AL,e*EXT,M->type[e]); allocator_dec_ref(AL,e*EXT,M->type[e]); M->owned[e]=0; M->nown--; free_since[e]=++US->ev; break; } sim_progress(); } }
   unit_clients(client,A.nt); agree("after the session");
   if(s==A.sessions-1&&M->cap<=MAXE){ /* exhaust, then everything goes */
      for(;;){ uint64 ad; if(M->nown==(int)(M->cap-M->first)) { platform_status rc=allocator_alloc(AL,&ad,PAGE_TYPE_MISC); UCHK(!SUCCESS(rc),"allocation succeeded on a full device"); break; } do_alloc(0,r); sim_progress(); UCHK(US->cov[CV_NS]<100000,"allocation keeps failing"); }
      agree("on a full device");
      for(u64 e=M->first;e<LIM;e++){ while(holders(e)>0){ for(int t=0;t<MAXT;t++) if(M->hold[t][e]){ M->hold[t][e]--; break; } allocator_dec_ref(AL,e*EXT,M->type[e]); } allocator_dec_ref(AL,e*EXT,M->type[e]); M->owned[e]=0; M->nown--; sim_progress(); }
      agree("after freeing everything"); }
   uenv_down(&E,1); unit_leakcheck(); US->done=1; sim_progress(); }
static void run(void){ rng_t r; rng_seed(&r,OPT.seed,0x91a7); int n=1+rng_below(&r,4); for(int s=0;s<n;s++){ sched_cfg sc; fault_cfg fc; unit_sched(s,&sc,&fc,1); sim_hang_limit=6000000; if(!unit_session(main_,s,&sc,&fc)) return; } }
static harness H_alloc={"alloc",unit_init,run,COVN}; REGISTER_HARNESS(H_alloc)
