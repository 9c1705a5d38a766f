/* C19: filters. Threads build filters, extend them, share and give them up and query them (also asynchronously) over a
   cache smaller than the filters. A filter keeps whole fingerprints, so its answer is known exactly: the values with which
   a key of the same fingerprint was added. Parameters come from trunk_config_init. */
#include "unit.h"
#include "routing_filter.h"
#include "mini_allocator.h"
#include "trunk.h"
static const char *COVN[]={"news","adds","add_fps","shares","zaps","lookups","hits","false_hits","async","async_io","estimates","sampled","verifies","cold_starts","nomem","skipped_full","high_values","split_indices",0};
enum { CV_NEW, CV_ADD, CV_FPS, CV_SH, CV_ZAP, CV_LK, CV_HIT, CV_FALSE, CV_AS, CV_AIO, CV_EST, CV_SAMP, CV_VER, CV_COLD, CV_NM, CV_FULL, CV_HI, CV_SPL };
#define EXT 131072ull
#define MAXT 6
#define NF 20
typedef struct { int users, dead, shared; u32 np, maxv, total; u64 *p; } body;      /* p: sorted distinct fingerprint<<6|value */
typedef struct { int used, users, busy; body *b; routing_filter f; } slot;
static struct { int dup, nt, nops, w[8], q, stats, oom, cap, ukeys, maxn, big, overflow, skew; u64 mem, fan, br, rem, idx; } A;
static uenv E; static cache *CC; static allocator *AL; static data_config DC; static trunk_config TC; static routing_config *RC; static slot F[NF]; static int PH, adding; static u64 use0;
static int dcmp(const data_config*c,slice a,slice b){ (void)c; u64 n=slice_length(a),m=slice_length(b); int x=memcmp(slice_data(a),slice_data(b),n<m?n:m); return x?x:n<m?-1:n>m; }
/* a poor hash function puts many keys into one bucket */
static u32 hfn(const void*d,size_t n,unsigned seed){ u64 k=0; memcpy(&k,d,n<8?n:8); u64 h=hash3(OPT.seed,k,seed); if(A.skew&&(h&3)) return (u32)(hash3(OPT.seed,7,(h>>40)%A.skew)>>9)<<14|((u32)(h>>7)&0x3fff); return (u32)(h>>7); }
static u32 fpof(u64 k){ return hfn(&k,8,RC->seed); }
static int pcmp(const void*a,const void*b){ u64 x=*(u64*)a,y=*(u64*)b; return x<y?-1:x>y; }
static int lg(u32 n){ int l=31-__builtin_clz(n); return l<(int)RC->log_index_size?(int)RC->log_index_size:l; }
static u64 want(body*b,u32 fp){ u64 t=(u64)fp<<6, w=0; u32 lo=0,hi=b->np; while(lo<hi){ u32 m=(lo+hi)/2; if(b->p[m]<t) lo=m+1; else hi=m; } for(;lo<b->np&&b->p[lo]>>6==fp;lo++) w|=1ull<<(b->p[lo]&63); return w; }
static slot *newslot(void){ for(int i=0;i<NF;i++) if(!F[i].used){ memset(&F[i],0,sizeof F[i]); F[i].used=1; F[i].busy=1; return &F[i]; } return 0; }
static slot *pick(rng_t*r){ int k=RND(NF); if(A.dup&&RND(2)){ slot*m=0; for(int i=0;i<NF;i++) if(F[i].used&&!F[i].busy&&(!m||F[i].b->total>m->b->total)) m=&F[i]; if(m) return m; } for(int i=0;i<NF;i++){ slot*s=&F[(k+i)%NF]; if(s->used&&!s->busy) return s; } return 0; }
static u64 free_ext(void){ return allocator_get_capacity(AL)/EXT-allocator_in_use(AL); }
static void unbody(body*b){ if(!--b->shared){ raw_free(b->p); raw_free(b); } }
/* does every index of the filter fit in a page? (with hashes which spread the keys it always does) */
static int fits(body*b){ int l=lg(b->total), rem=RC->fingerprint_size-l, vs=b->maxv?32-__builtin_clz(b->maxv):0; u32 n=0; u64 cur=~0ull; for(u32 i=0;i<=b->np;i++){ u64 ix=i<b->np?(b->p[i]>>6)>>(rem+RC->log_index_size):~0ull-1; if(ix!=cur){ if(n&&(n>4000||(u64)(n+RC->index_size-1)/8+6+(u64)(n*(rem+vs)-1)/8+4>4096)) return 0; n=0; cur=ix; } n++; } return 1; }
static void build_(slot*from,rng_t*r){ if(adding>=2) return; u64 needx=8; int n=1+rng_logu(r,1,A.maxn+1); if(A.dup&&RND(4)) n=A.ukeys; else if(A.big&&RND(3)) n=A.maxn/2+RND(A.maxn/2+1); if(from&&!A.dup&&RND(2)) n=1+n/4; needx+=(from?from->b->total:0)/8192+n/8192; if(free_ext()<needx*4+40) return; if(from&&(from->b->maxv+1>=A.br||from->b->total>(u32)A.maxn*(A.dup?60:3)||from->b->total+n>=1u<<(RC->fingerprint_size-1)||from->b->total+n>=RC->index_size*12000u)) return; slot*s=newslot(); if(!s) return; adding++;
   u32 v=from?from->b->maxv+1+(RND(4)==0?RND(4):0):RND(3)?0:RND(A.br); if(v>=A.br) v=A.br-1; u64 base=rng_next(r)%A.ukeys; int seqk=A.dup||RND(2);
   body*b=raw_malloc(sizeof *b); memset(b,0,sizeof *b); b->shared=1; b->maxv=v; b->total=n+(from?from->b->total:0); u32 op=from?from->b->np:0; b->p=raw_malloc((op+n)*8); if(op) memcpy(b->p,from->b->p,op*8); u32 *a=raw_malloc((u64)n*4), *a0=raw_malloc((u64)n*4); for(int i=0;i<n;i++){ u64 k=seqk?(base+i)%A.ukeys:rng_next(r)%A.ukeys; a0[i]=a[i]=fpof(k); b->p[op+i]=(u64)(a[i]>>(32-RC->fingerprint_size))<<6|v; } qsort(b->p,op+n,8,pcmp); u32 o=0; for(u32 i=0;i<op+n;i++) if(!o||b->p[o-1]!=b->p[i]) b->p[o++]=b->p[i]; b->np=o;
   if(!A.overflow&&!fits(b)){ if(OPT.verbose) fprintf(stderr,"full: n=%u np=%u idx=%u fp=%u br=%d v=%u dup=%d ukeys=%d\n",b->total,b->np,RC->index_size,RC->fingerprint_size,(int)A.br,v,A.dup,A.ukeys); US->cov[CV_FULL]++; s->used=0; unbody(b); raw_free(a); raw_free(a0); adding--; return; }
   routing_filter none; memset(&none,0,sizeof none); routing_filter old=from?from->f:none, keep=old; memset(&s->f,0xab,sizeof s->f); u64 f0=SH->faults[F_MALLOC]; if(A.oom) sim_fault_fiber=sim_self(); platform_status rc=routing_filter_add(CC,RC,&old,&s->f,a,n,v); if(A.oom) sim_fault_fiber=9999; if(n>20000) sim_progress();
   UCHK(!memcmp(&old,&keep,sizeof old),"adding to a filter changed the descriptor of the old one");
   if(!SUCCESS(rc)){ UCHK(A.oom&&SH->faults[F_MALLOC]>f0,"adding %d fingerprints returned %d",n,(int)rc.r); UCHK(!memcmp(a,a0,(u64)n*4),"a refused addition changed the fingerprints"); US->cov[CV_NM]++; s->used=0; unbody(b); }
   else { u32 uq=0; for(u32 i=0;i<b->np;i++) if(!i||b->p[i]>>6!=b->p[i-1]>>6) uq++; UCHK(s->f.addr&&s->f.num_fingerprints==b->total,"a filter of %u fingerprints says it has %u",b->total,s->f.num_fingerprints); UCHK(s->f.num_unique==uq,"a filter of %u distinct fingerprints says it has %u",uq,s->f.num_unique); s->b=b; s->busy=0; US->cov[from?CV_ADD:CV_NEW]++; US->cov[CV_FPS]+=n; if(v>=32) US->cov[CV_HI]++; if(from&&lg(b->total)>lg(from->b->total)) US->cov[CV_SPL]++; }
   raw_free(a); raw_free(a0); adding--; }
static void build(slot*from,rng_t*r){ if(from) from->users++; build_(from,r); if(from) from->users--; }
static void judge(slot*s,u64 k,u64 got,const char*what){ u64 w=want(s->b,fpof(k)>>(32-RC->fingerprint_size)); UCHK(!(w&~got),"%s: key %llu was added with the values %llx, the filter of %u fingerprints says %llx",what,(unsigned long long)k,(unsigned long long)w,s->b->total,(unsigned long long)got); UCHK(got==w,"%s: key %llu: the filter of %u fingerprints says %llx although only the values %llx have its fingerprint",what,(unsigned long long)k,s->b->total,(unsigned long long)got,(unsigned long long)w);
   /* the users of the answer: from the highest value down, and by value */
   u64 seen=0; uint16 v=routing_filter_get_next_value(got,ROUTING_NOT_FOUND); int last=64; while(v!=ROUTING_NOT_FOUND){ UCHK((int)v<last&&v<64,"%s: values are not visited from the highest down",what); UCHK(got>>v&1,"%s: value %u is visited although it is not in %llx",what,v,(unsigned long long)got); seen|=1ull<<v; last=v; v=routing_filter_get_next_value(got,v); } UCHK(seen==got,"%s: of the values %llx only %llx are visited",what,(unsigned long long)got,(unsigned long long)seen);
   for(int i=0;i<64;i++) UCHK(!!routing_filter_is_value_found(got,i)==(int)(got>>i&1),"%s: value %d of %llx",what,i,(unsigned long long)got); if(got) US->cov[CV_HIT]++; }
static u64 akey(slot*s,rng_t*r){ (void)s; return RND(10)?rng_next(r)%A.ukeys:rng_next(r); }
static void look(slot*s,u64 k,const char*what){ u64 got=~0ull; UCHK(SUCCESS(routing_filter_lookup(CC,RC,&s->f,key_create(8,&k),&got)),"%s failed",what); US->cov[CV_LK]++; judge(s,k,got,what); }
static void op_look(rng_t*r){ slot*s=pick(r); if(!s) return; s->users++; int n=1+RND(6); for(int i=0;i<n;i++) look(s,akey(s,r),"lookup"); s->users--; }
typedef struct { cache_async_ctxt c; routing_async_ctxt a; u64 k, got; int st_; volatile int done; } act;
static void acb(routing_async_ctxt*a){ act*x=(act*)((u8*)a-offsetof(act,a)); UCHK(x->st_==1&&!x->done,"an asynchronous filter lookup was called back without having been started, or twice"); x->done=1; }
static void op_async(rng_t*r){ slot*s=pick(r); if(!s) return; s->users++; act a[8]; int n=1+RND(8), left=n; for(int i=0;i<n;i++){ a[i].k=akey(s,r); a[i].st_=0; a[i].done=0; a[i].got=~0ull; routing_filter_ctxt_init(&a[i].a,&a[i].c,acb); }
   while(left){ cache_cleanup(CC); for(int i=0;i<n;i++){ act*x=&a[i]; if(x->st_==3||(x->st_==1&&!x->done)) continue; x->st_=1; x->done=0; cache_async_result rc=routing_filter_lookup_async(CC,RC,&s->f,key_create(8,&x->k),&x->got,&x->a); switch(rc){ case async_success: judge(s,x->k,x->got,"asynchronous lookup"); x->st_=3; left--; US->cov[CV_AS]++; sim_progress(); break; case async_io_started: US->cov[CV_AIO]++; break; case async_locked: case async_no_reqs: UCHK(!x->done,"an asynchronous lookup which did not start was called back"); x->st_=0; break; default: UCHK(0,"asynchronous lookup returned %d",(int)rc); } } }
   s->users--; }
static void op_share(rng_t*r){ slot*s=pick(r); if(!s) return; slot*n=newslot(); if(!n) return; s->users++; mini_unkeyed_inc_ref(CC,s->f.meta_head); n->f=s->f; n->b=s->b; s->b->shared++; n->busy=0; s->users--; US->cov[CV_SH]++; }
static void zap(slot*s){ s->busy=1; body*b=s->b; routing_filter f=s->f; routing_filter_zap(CC,&f); unbody(b); s->used=0; US->cov[CV_ZAP]++; }
static void op_zap(rng_t*r){ slot*s=pick(r); if(!s||s->users) return; zap(s); }
static void op_est(rng_t*r){ int n=1+RND(6); if(RND(10)==0) n=1+RND(NF); slot*s[NF]; routing_filter f[NF]; int m=0; for(int i=0;i<n;i++){ slot*x=pick(r); if(!x) break; if(RND(8)==0){ s[m]=0; memset(&f[m],0,sizeof f[m]); m++; continue; } x->users++; s[m]=x; f[m++]=x->f; } if(!m) return; u64 tot=0, cap=0; for(int i=0;i<m;i++) if(s[i]) cap+=s[i]->b->np; u64*u=raw_malloc(cap*8+8); u64 nu=0; int any=0; for(int i=0;i<m;i++) if(s[i]){ if(lg(s[i]->b->total)-RC->log_index_size<4) tot+=f[i].num_unique; else { any=1; for(u32 j=0;j<s[i]->b->np;j++) if(!(s[i]->b->p[j]>>6>>(RC->fingerprint_size-4))) u[nu++]=s[i]->b->p[j]>>6; } }
   qsort(u,nu,8,pcmp); u64 d=0; for(u64 i=0;i<nu;i++) if(!i||u[i]!=u[i-1]) d++; raw_free(u); u32 got=routing_filter_estimate_unique_fp(CC,RC,E.hid,f,m); UCHK(got==d*16+tot,"the distinct fingerprints of %d filters are estimated at %u instead of %llu",m,got,(unsigned long long)(d*16+tot)); US->cov[CV_EST]++; US->cov[CV_SAMP]+=any; for(int i=0;i<m;i++) if(s[i]) s[i]->users--; sim_progress(); }
static void client(int t){ (void)t; int tot=0; for(int i=0;i<7;i++) tot+=A.w[i]; UCHK(SUCCESS(task_register_this_thread(E.ts,0)),"register");
   for(int i=0;i<A.nops;i++){ u64 id=(u64)(PH+8)<<44|(u64)(t+1)<<32|i; if(op_skipped(id)) continue; rng_t r0=op_rng(id),*r=&r0; int k=RND(tot),o=0; while(k>=A.w[o]) k-=A.w[o++]; switch(o){ case 0: build(0,r); break; case 1: build(pick(r),r); break; case 2: op_look(r); break; case 3: op_async(r); break; case 4: op_share(r); break; case 5: op_zap(r); break; case 6: op_est(r); break; } US->ops++; sim_progress(); }
   task_deregister_this_thread(E.ts); }
static void full(slot*s){ int st=1+s->b->total/3000; u64 k0=0; for(u64 k=k0;k<(u64)A.ukeys;k+=st){ look(s,k,"lookup at rest"); if(k%16==0) sim_progress(); } US->cov[CV_VER]++; }
static void main_(void*a){ (void)a; rng_t r0,*r=&r0; rng_seed(r,OPT.seed,0xf117); memset(&A,0,sizeof A); for(int i=0;i<NF;i++) F[i].used=0; adding=0;
   A.overflow=UPROF("wide"); A.nt=1+RND(MAXT); A.q=32<<RND(2); A.stats=RND(2); A.oom=RND(8)==0; A.big=RND(4)==0; A.maxn=1+rng_logu(r,1,A.big?30000:4000); A.ukeys=RND(4)==0?1+rng_logu(r,1,A.maxn+1):1+RND(A.maxn*3); A.dup=RND(4)==0;A.skew=RND(5)==0?1+A.maxn/(40+RND(200)):0; if(A.dup){ A.skew=0; A.ukeys=1+rng_logu(r,10,1500); A.maxn=A.ukeys; } A.nops=1+rng_logu(r,4,A.maxn>4000?60:300);
   static const u64 mem[]={1,2,4,8,24,24,24,64}; A.mem=mem[RND(8)]<<20; A.fan=2+RND(8); A.br=RND(3)==0?24:RND(2)==0?2+RND(62):4+RND(28); A.rem=RND(3)?4:1+RND(10); A.idx=RND(3)==0?512:A.big&&RND(2)?16<<RND(3):64<<RND(4); if(A.overflow){ A.mem=RND(2)?128<<20:256<<20; A.fan=8; A.br=24; A.rem=4; A.idx=512; A.maxn=8000; A.ukeys=30000; }
   if(OPT.max_ops&&A.nops>(int)OPT.max_ops) A.nops=OPT.max_ops;
   { int base[7]={6,12,20,10,6,12,4}; for(int i=0;i<7;i++) A.w[i]=RND(6)==0?0:RND(4)==0?base[i]*3:base[i]; if(!A.w[0]) A.w[0]=6; }
   A.cap=(A.nt*84+64+(RND(3)?40+RND(60):400)+63)/64*64; if(OPT.has_p[0]) A.cap=64*OPT.p[0];
   memset(&DC,0,sizeof DC); DC.max_key_size=24; DC.key_compare=dcmp; DC.key_hash=hfn; sim_fault_fiber=9999; u64 disk=(700+RND(300))*EXT; uenv_up(&E,disk,(u64)A.cap*4096,0,0,A.q,A.stats,0,0); AL=(allocator*)&E.al; CC=(cache*)&E.cc; DH->size=disk; uint64 sa; UCHK(SUCCESS(allocator_alloc_super_addr(AL,7,&sa)),"super block address");
   UCHK(SUCCESS(trunk_config_init(&TC,(cache_config*)&E.cccfg,&DC,0,A.mem,A.fan,A.br,1,A.rem,A.idx,0,100,0,0,0,Platform_default_log_handle)),"configuration"); RC=&TC.filter_cfg; US->state=hash3(A.nt,RC->index_size*64+RC->fingerprint_size,A.cap); use0=allocator_in_use(AL);
   { int lim=A.maxn, q=RC->fingerprint_size; while(q<30&&lim>1&&31-__builtin_clz((u32)lim*4)>=q) lim/=2; A.maxn=lim<1?1:lim; u64 mx=(u64)RC->index_size*8192; if((u64)A.maxn*4>mx) A.maxn=mx/4; if(A.br>63) A.br=63; }
   int rounds=1+RND(3); for(PH=0;PH<rounds;PH++){ if(RND(2)==0){ cache_flush(CC); if(RND(4)){ cache_evict(CC,TRUE); US->cov[CV_COLD]++; } } unit_clients(client,A.nt);
      for(int i=0;i<NF;i++) if(F[i].used){ UCHK(!F[i].users&&!F[i].busy,"model"); if(RND(3)==0) full(&F[i]); } sim_progress(); }
   for(int i=0;i<NF;i++) if(F[i].used){ if(RND(4)==0) full(&F[i]); zap(&F[i]); }
   UCHK(allocator_in_use(AL)==use0,"%lld extents are still in use after all filters were given up",(long long)(allocator_in_use(AL)-use0));
   cache_flush(CC); uenv_down(&E,1); unit_leakcheck(); US->done=1; sim_progress(); }
static void run(void){ disk_reset(); sched_cfg sc; fault_cfg fc; unit_sched(0,&sc,&fc,1); rng_t r; rng_seed(&r,OPT.seed,0xfab); fc.enabled=1; fc.prob[F_MALLOC]=0.02+0.2*rng_chance(&r,0.3); fc.count_limit=1+rng_below(&r,60); sim_hang_limit=20000000; unit_session(main_,0,&sc,&fc); }
static harness H_filter={"filter",unit_init,run,COVN}; REGISTER_HARNESS(H_filter)
