/* C09: the page cache. Clients play the engine's part: they allocate, read, write, pin, prefetch, sync and discard pages
   of more extents than the cache has room for, and keep a model of who holds what and of what each page contains. */
#include "unit.h"
static const char *COVN[]={"reads","nonblocking_null","async","async_io","async_locked","async_no_reqs","writes","failed_claims","allocs","discards","prefetches","pins","page_syncs","extent_syncs","flushes","evict_all","reopens","device_checks","multi_holds",0};
enum { CV_R, CV_NULL, CV_A, CV_AIO, CV_AL, CV_ANR, CV_W, CV_FC, CV_ALLOC, CV_DISC, CV_PF, CV_PIN, CV_PS, CV_ES, CV_FL, CV_EV, CV_RE, CV_DEV, CV_MH };
#define EXT 131072ull
#define NP 32
#define MAXX 24
#define MAXV 512                  /* extents of the device */
typedef struct { u64 ver, dev; int readers, claim, writer, want, noclaim, alive, pins, gen; page_handle*pin; char*pind; } pg;
enum { DEAD, LIVE, CHANGING };
typedef struct { u64 addr; int state, users, nalive, pf, type; pg p[NP]; } ext;
/* kept across sessions */
typedef struct { u64 addr[MAXX]; int type[MAXX]; u64 ver[MAXX][NP]; u8 alive[MAXX][NP]; u64 vers[MAXV][NP], dver[MAXV][NP]; int n; } keep;
#define K ((keep*)US->blob)
static struct { int sessions, nt, nops, nx, cap, phases, w[8], stats, q, maxpins, hold, slow; u64 disk; } A;
static uenv E; static cache *CC; static allocator *AL; static ext X[MAXX]; static int npins, stopping;
static u64 tagof(u64 addr,u64 v){ return hash3(addr,v,0xcace); }
static void fill_page(u64 addr,u64 v,char*d,rng_t*r){ u64*w=(u64*)d, t=tagof(addr,v); int k=RND(512); for(int i=0;i<512;i++){ int j=(i+k)%512; w[j]=j==1?v:fill_word(t,j); if((i&127)==0&&RND(2)) sim_sched_point(); } }
static int whole(u64 addr,u64 v,const u64*w){ u64 t=tagof(addr,v); for(int i=0;i<512;i++) if(w[i]!=(i==1?v:fill_word(t,i))) return 0; return 1; }
static void see(ext*x,pg*p,page_handle*h,const char*what,rng_t*r){ u64 addr=x->addr+(p-x->p)*4096; const u64*w=(const u64*)h->data; u64 t=tagof(addr,p->ver);
   UCHK(h->disk_addr==addr,"%s: the handle of page %llu says page %llu",what,(unsigned long long)addr,(unsigned long long)h->disk_addr);
   UCHK(w[1]==p->ver,"%s: page %llu shows version %llu, last written was %llu",what,(unsigned long long)addr,(unsigned long long)w[1],(unsigned long long)p->ver);
   if(RND(6)==0) UCHK(whole(addr,p->ver,w),"%s: contents of page %llu are wrong or torn",what,(unsigned long long)addr);
   else for(int i=0;i<6;i++){ int j=RND(512); UCHK(w[j]==(j==1?p->ver:fill_word(t,j)),"%s: contents of page %llu are wrong or torn (word %d)",what,(unsigned long long)addr,j); } }
/* what is on the device is at any time one of the page's versions as a whole, and never goes back */
static void device(ext*x,pg*p,int exact){ u64 addr=x->addr+(p-x->p)*4096, e=addr/EXT; const u64*w=(const u64*)(DISK+addr); u64 v=w[1], *last=&K->dver[e][p-x->p]; US->cov[CV_DEV]++;
   if(v==0&&w[0]==0){ UCHK(*last==0&&!exact,"page %llu vanished from the device",(unsigned long long)addr); return; }
   UCHK(v<=p->ver&&v>=*last,"device holds version %llu of page %llu; it was %llu before and %llu is the newest",(unsigned long long)v,(unsigned long long)addr,(unsigned long long)*last,(unsigned long long)p->ver);
   UCHK(whole(addr,v,w),"device holds a mixture of versions of page %llu",(unsigned long long)addr); *last=v;
   if(exact) UCHK(v==p->ver,"device holds version %llu of page %llu after it was synced, newest is %llu",(unsigned long long)v,(unsigned long long)addr,(unsigned long long)p->ver); }
static void dawdle(rng_t*r){ int n=RND(4)==0?RND(10):RND(3); for(int i=0;i<n;i++) sim_sched_point(); if(RND(20)==0) sim_yield(); if(A.slow&&RND(A.slow)==0) platform_sleep_ns(1000*(1+RND(400))); }
static ext *pickx(rng_t*r){ int k=RND(A.nx); for(int i=0;i<A.nx;i++){ ext*x=&X[(k+i)%A.nx]; if(x->state==LIVE&&x->nalive) return x; } return 0; }
static pg *pickp(ext*x,rng_t*r){ int k=RND(3)==0?RND(4):RND(NP); for(int i=0;i<NP;i++){ pg*p=&x->p[(k+i)%NP]; if(p->alive) return p; } return 0; }
#define ADDR(xx,pp) ((xx)->addr+((pp)-(xx)->p)*4096)
static page_handle *get(ext*x,pg*p,int blocking){ page_handle*h=cache_get(CC,ADDR(x,p),blocking,x->type); if(!h){ UCHK(!blocking,"a blocking get of page %llu returned nothing",(unsigned long long)ADDR(x,p)); US->cov[CV_NULL]++; return 0; }
   UCHK(!p->writer,"read lock on page %llu granted while it is write locked",(unsigned long long)ADDR(x,p)); p->readers++; US->cov[CV_R]++; return h; }
static void unget(pg*p,page_handle*h){ UCHK(!p->writer,"a writer entered while page was read locked"); p->readers--; cache_unget(CC,h); }
static void op_read(rng_t*r){ ext*x=pickx(r); if(!x) return; pg*p=pickp(x,r); x->users++;
   if(RND(8)==0) device(x,p,0);
   page_handle*h=get(x,p,RND(4)!=0); if(h){ see(x,p,h,"read",r); dawdle(r);
      if(RND(A.hold)==0){ /* further pages, in ascending order of address */ page_handle*hh[3]; pg*pp[3]; int n=0; for(pg*q=p+1;q<x->p+NP&&n<3;q+=1+RND(4)) if(q->alive){ hh[n]=get(x,q,1); pp[n]=q; see(x,q,hh[n],"second read",r); n++; US->cov[CV_MH]++; } dawdle(r); see(x,p,h,"held read",r); while(n--){ see(x,pp[n],hh[n],"held second read",r); unget(pp[n],hh[n]); } }
      see(x,p,h,"held read",r); unget(p,h); }
   x->users--; }
static void write_locked(ext*x,pg*p,page_handle*h,int t,rng_t*r){ u64 addr=ADDR(x,p);
   UCHK(p->readers==0,"write lock on page %llu granted while %d readers hold it",(unsigned long long)addr,p->readers); UCHK(!p->writer&&p->claim==t+1,"write lock on page %llu is not exclusive",(unsigned long long)addr); UCHK(h->disk_addr==addr,"page %llu moved while claimed",(unsigned long long)addr);
   p->writer=t+1; int early=RND(2); u64 v=p->ver; US->cov[CV_W]++;
   if(RND(10)){ if(early) cache_mark_dirty(CC,h); v=++K->vers[addr/EXT][p-x->p]; fill_page(addr,v,h->data,r); dawdle(r); UCHK(whole(addr,v,(u64*)h->data),"contents of page %llu changed under its write lock",(unsigned long long)addr); if(!early) cache_mark_dirty(CC,h); p->ver=v; }
   if(RND(8)==0&&npins<A.maxpins){ cache_pin(CC,h); p->pins++; npins++; p->pin=h; p->pind=h->data; US->cov[CV_PIN]++; }
   UCHK(p->readers==0&&p->writer==t+1&&p->claim==t+1,"write lock on page %llu did not exclude others",(unsigned long long)addr); p->writer=0; }
static void op_write(int t,rng_t*r){ ext*x=pickx(r); if(!x) return; pg*p=pickp(x,r); if(p->noclaim) return; x->users++; p->want++; u64 wait=1;
   for(int tries=0;;tries++){ page_handle*h=get(x,p,1); see(x,p,h,"read",r); p->readers--; /* claiming gives the plain read lock up */
      if(!cache_try_claim(CC,h)){ p->readers++; US->cov[CV_FC]++; see(x,p,h,"read after a failed claim",r); unget(p,h); if(tries<3&&RND(3)){ platform_sleep_ns(wait); wait=wait>2048?wait:wait*2; continue; } break; }
      UCHK(!p->claim,"page %llu claimed twice",(unsigned long long)ADDR(x,p)); UCHK(!p->writer,"page %llu claimed while write locked",(unsigned long long)ADDR(x,p)); p->claim=t+1; see(x,p,h,"claim",r); dawdle(r);
      int depth=RND(5); if(depth){ do { cache_lock(CC,h); write_locked(x,p,h,t,r); cache_unlock(CC,h); see(x,p,h,"claim after unlock",r); } while(depth==4&&RND(2)); }
      UCHK(p->claim==t+1,"claim of page lost"); p->claim=0; p->readers++; cache_unclaim(CC,h); see(x,p,h,"read after unclaim",r); dawdle(r); unget(p,h); break; }
   p->want--; x->users--; }
typedef struct { cache_async_ctxt c; ext*x; pg*p; volatile int done; int st; } actx;
static void acb(cache_async_ctxt*c){ actx*a=c->cbdata; UCHK(a->st==1&&!a->done,"an asynchronous read was reported complete twice or without having been started"); a->done=1; }
static void op_async(rng_t*r){ actx a[4]; int n=1+RND(4), left=n; 
   for(int i=0;i<n;i++){ a[i].x=pickx(r); if(!a[i].x){ n=left=i; break; } a[i].p=pickp(a[i].x,r); a[i].x->users++; a[i].st=0; a[i].done=0; cache_ctxt_init(CC,acb,&a[i],&a[i].c); }
   int spins=0, limit=200+RND(400);
   while(left){ for(int i=0;i<n;i++){ actx*b=&a[i]; u64 ad=ADDR(b->x,b->p);
         if(b->st==0){ b->st=1; cache_async_result rc=cache_get_async(CC,ad,b->x->type,&b->c); US->cov[CV_A]++;
            if(rc==async_success){ UCHK(!b->done,"asynchronous get called back although it succeeded at once"); UCHK(b->c.page,"asynchronous get returned no page"); UCHK(!b->p->writer,"read lock on page %llu granted while it is write locked",(unsigned long long)ad); b->p->readers++; see(b->x,b->p,b->c.page,"asynchronous read",r); b->st=3; }
            else if(rc==async_io_started){ US->cov[CV_AIO]++; }
            else { UCHK(!b->done,"asynchronous get which did not start called back"); b->st=spins>limit?4:0; if(rc==async_locked) US->cov[CV_AL]++; else if(rc==async_no_reqs) US->cov[CV_ANR]++; else UCHK(0,"asynchronous get returned %d",rc); if(b->st==4){ left--; b->x->users--; } } }
         else if(b->st==1&&b->done){ UCHK(SUCCESS(b->c.status)&&b->c.page,"asynchronous get failed without a fault"); UCHK(!b->p->writer,"page %llu is write locked although it was being read",(unsigned long long)ad); b->p->readers++; cache_async_done(CC,b->x->type,&b->c); see(b->x,b->p,b->c.page,"asynchronous read",r); b->st=3; }
         else if(b->st==3&&RND(3)==0){ see(b->x,b->p,b->c.page,"held asynchronous read",r); b->st=4; unget(b->p,b->c.page); b->x->users--; left--; } }
      if(left){ cache_cleanup(CC); sim_yield(); spins++; } } }
static void op_prefetch(rng_t*r){ ext*x=pickx(r); if(!x||x->nalive<NP) return; x->users++; cache_prefetch(CC,x->addr,x->type); US->cov[CV_PF]++; if(RND(3)==0){ int k=RND(NP-4); for(int i=0;i<4;i++){ page_handle*h=get(x,&x->p[k+i],1); see(x,&x->p[k+i],h,"read after prefetch",r); unget(&x->p[k+i],h); } } x->users--; }
static void op_alloc(int t,rng_t*r){ ext*x=0; int k=RND(A.nx); for(int i=0;i<A.nx&&!x;i++) if(X[(k+i)%A.nx].state==DEAD) x=&X[(k+i)%A.nx]; if(!x) return; x->state=CHANGING;
   int ty=RND(2)?PAGE_TYPE_BRANCH:PAGE_TYPE_TRUNK; uint64 ad; platform_status rc=allocator_alloc(AL,&ad,ty); UCHK(SUCCESS(rc),"no space although extents are free"); UCHK(ad/EXT<MAXV,"device too large for the model");
   memset(x,0,sizeof *x); x->addr=ad; x->type=ty; x->users=1; x->state=LIVE; int n=RND(4)?NP:1+RND(NP);
   for(int i=0;i<n;i++){ pg*p=&x->p[i]; u64 a=ADDR(x,p); page_handle*h=cache_alloc(CC,a,ty); UCHK(h&&h->disk_addr==a,"cache_alloc returned the wrong page"); p->writer=p->claim=t+1; u64 v=++K->vers[a/EXT][i]; p->ver=v; fill_page(a,v,h->data,r); dawdle(r); if(RND(2)) cache_mark_dirty(CC,h);
      UCHK(whole(a,v,(u64*)h->data),"contents of the new page %llu changed under its write lock",(unsigned long long)a); p->writer=0; cache_unlock(CC,h); see(x,p,h,"claim of a new page",r); p->claim=0; p->readers++; cache_unclaim(CC,h); p->alive=1; x->nalive++; if(RND(3)==0){ see(x,p,h,"new page",r); dawdle(r); } unget(p,h); US->cov[CV_ALLOC]++; sim_progress(); }
   x->users--; }
static void discard(ext*x){ UCHK(x->users==0,"model"); x->state=CHANGING; u8 v=allocator_dec_ref(AL,x->addr,x->type); UCHK(v==AL_NO_REFS,"reference count of extent is %d after dropping the only one",v); cache_extent_discard(CC,x->addr,x->type); for(int i=0;i<NP;i++) npins-=x->p[i].pins; v=allocator_dec_ref(AL,x->addr,x->type); UCHK(v==AL_FREE,"extent not free after freeing"); x->state=DEAD; US->cov[CV_DISC]++; }
static void op_discard(rng_t*r){ int k=RND(A.nx); for(int i=0;i<A.nx;i++){ ext*x=&X[(k+i)%A.nx]; if(x->state==LIVE&&x->users==0){ discard(x); return; } } }
static void op_sync(rng_t*r){ ext*x=pickx(r); if(!x) return; pg*p=pickp(x,r); x->users++; p->noclaim++; if(!p->want){ page_handle*h=get(x,p,1); int blocking=RND(2); UCHK(!p->claim&&!p->writer&&!p->want,"model"); cache_page_sync(CC,h,blocking,x->type); US->cov[CV_PS]++; see(x,p,h,"read during sync",r);
      if(!blocking) for(;;){ const u64*w=(const u64*)(DISK+ADDR(x,p)); if(w[1]==p->ver&&whole(ADDR(x,p),p->ver,w)) break; cache_cleanup(CC); sim_yield(); } /* never arriving shows as a hang */
      device(x,p,1); unget(p,h); } p->noclaim--; x->users--; }
static void op_unpin(rng_t*r){ int k=RND(A.nx); for(int i=0;i<A.nx;i++){ ext*x=&X[(k+i)%A.nx]; if(x->state!=LIVE) continue; for(int j=0;j<NP;j++) if(x->p[j].pins){ pg*p=&x->p[j]; UCHK(p->pin->disk_addr==ADDR(x,p)&&p->pin->data==p->pind,"pinned page %llu left the cache or moved",(unsigned long long)ADDR(x,p)); p->pins--; npins--; cache_unpin(CC,p->pin); return; } } }
static int PH;
static void client(int t){ UCHK(SUCCESS(task_register_this_thread(E.ts,0)),"register"); int tot=0; for(int i=0;i<8;i++) tot+=A.w[i];
   for(int i=0;i<A.nops;i++){ u64 id=(u64)US->sess<<48|(u64)PH<<44|(u64)t<<32|i; if(op_skipped(id)) continue; rng_t r0=op_rng(id),*r=&r0; int k=RND(tot),o=0; while(k>=A.w[o]) k-=A.w[o++];
      switch(o){ case 0: op_read(r); break; case 1: op_write(t,r); break; case 2: op_async(r); break; case 3: op_prefetch(r); break; case 4: op_alloc(t,r); break; case 5: op_discard(r); break; case 6: op_sync(r); break; case 7: op_unpin(r); break; } US->ops++; sim_progress(); }
   task_deregister_this_thread(E.ts); }
static void quiesced(rng_t*r,int last){
   for(int i=0;i<A.nx;i++) if(X[i].state==LIVE){ UCHK(!X[i].users,"model: users"); for(int j=0;j<NP;j++){ pg*p=&X[i].p[j]; UCHK(!p->readers&&!p->writer&&!p->claim&&!p->want&&!p->noclaim,"model: locks"); if(p->pins) UCHK(p->pin->disk_addr==ADDR(&X[i],p)&&p->pin->data==p->pind,"pinned page left the cache or moved"); } }
   int how=last?1:RND(3);
   if(how==2){ cache_cleanup(CC); for(int i=0;i<A.nx;i++) if(X[i].state==LIVE&&X[i].nalive){ uint64 out=0; int dirty=0; for(int j=0;j<NP;j++) if(X[i].p[j].alive&&((u64*)(DISK+X[i].addr+j*4096))[1]!=X[i].p[j].ver) dirty++; cache_extent_sync(CC,X[i].addr,&out); UCHK(out<=NP,"%llu pages outstanding in one extent",(unsigned long long)out); while(((volatile uint64*)&out)[0]){ cache_cleanup(CC); sim_yield(); } (void)dirty; US->cov[CV_ES]++; for(int j=0;j<NP;j++) if(X[i].p[j].alive) device(&X[i],&X[i].p[j],1); sim_progress(); } }
   if(how==1){ cache_flush(CC); US->cov[CV_FL]++; for(int i=0;i<A.nx;i++) if(X[i].state==LIVE) for(int j=0;j<NP;j++) if(X[i].p[j].alive) device(&X[i],&X[i].p[j],1); UCHK(cache_count_dirty(CC)==0,"dirty pages remain after a flush"); sim_progress();
      if(!last&&RND(2)){ cache_evict(CC,TRUE); US->cov[CV_EV]++; for(int i=0;i<A.nx;i++) if(X[i].state==LIVE) for(int j=0;j<NP;j++) if(X[i].p[j].alive){ page_handle h={.disk_addr=X[i].addr+j*4096}; int there=cache_present(CC,&h); UCHK(!there==!X[i].p[j].pins,there?"page %llu could not be evicted although nobody holds it":"pinned page %llu was evicted",(unsigned long long)h.disk_addr); } } } }
static void main_(void*a){ int s=(int)(i64)a; rng_t r0,*r=&r0; rng_seed(r,OPT.seed,0x91a7); memset(&A,0,sizeof A);
   A.sessions=1+RND(3); A.nx=2+RND(MAXX-2); A.nt=1+RND(8); if(RND(2)) A.nx=2+RND(5); A.cap=64*(1+RND(8)); if(RND(2)) A.cap=64;  A.nops=20+rng_logu(r,1,200); if(OPT.max_ops&&A.nops>(int)OPT.max_ops) A.nops=OPT.max_ops; A.phases=1+RND(4); A.nops=A.nops/A.phases+1; A.stats=RND(2); A.q=RND(3)?32<<RND(4):32; A.hold=2+RND(10); A.slow=RND(3)?0:5+RND(40); A.disk=RND(40);
   int base[8]={30,25,8,6,8,6,6,5}; for(int i=0;i<8;i++) A.w[i]=RND(6)==0?0:RND(4)==0?base[i]*4:base[i]; if(RND(4)==0) for(int i=0;i<8;i++) if(RND(2)) A.w[i]=0; if(A.w[0]+A.w[1]==0) A.w[0]=1; if(!A.w[4]) A.w[4]=2;
   if(OPT.has_p[0]) A.cap=64*OPT.p[0]; if(OPT.has_p[1]) for(int i=0;i<8;i++) if(!(OPT.p[1]>>i&1)) A.w[i]=0; if(OPT.has_p[2]) A.nx=OPT.p[2]; if(OPT.has_p[3]) A.q=OPT.p[3];
   /* an extent being prefetched holds up to 32 pages before its request is issued */
   if(A.cap<A.nt*44+64) A.cap=(A.nt*44+127)/64*64; A.maxpins=A.cap/16; A.disk=(A.nx+4+A.disk)*EXT;
   US->state=hash3(A.cap,A.nt,hash2(A.nx,s)); npins=0;
   if(s==0) memset(K,0,sizeof *K);
   uenv_up(&E,A.disk,(u64)A.cap*4096,0,0,A.q,A.stats,s>0,0); AL=(allocator*)&E.al; CC=(cache*)&E.cc; if(s==0){ uint64 a0; UCHK(SUCCESS(allocator_alloc_super_addr(AL,7,&a0)),"super block address"); } else US->cov[CV_RE]++;
   memset(X,0,sizeof X); for(int i=0;i<K->n;i++){ X[i].addr=K->addr[i]; X[i].type=K->type[i]; X[i].state=LIVE; for(int j=0;j<NP;j++){ X[i].p[j].ver=K->ver[i][j]; X[i].p[j].alive=K->alive[i][j]; X[i].nalive+=K->alive[i][j]; if(X[i].p[j].alive) device(&X[i],&X[i].p[j],1); } if(!X[i].nalive) X[i].state=DEAD; }
   /* fill part of the device first */
   { int n=RND(A.nx+1); for(int i=0;i<n;i++) op_alloc(60,r); }
   for(PH=0;PH<A.phases;PH++){ unit_clients(client,A.nt); quiesced(r,PH==A.phases-1&&s==A.sessions-1); }
   /* everything is read once more */
   for(int i=0;i<A.nx;i++) if(X[i].state==LIVE) for(int j=0;j<NP;j++) if(X[i].p[j].alive){ page_handle*h=get(&X[i],&X[i].p[j],1); see(&X[i],&X[i].p[j],h,"final read",r); unget(&X[i].p[j],h); sim_progress(); }
   if(s==A.sessions-1) for(int i=0;i<A.nx;i++) if(X[i].state==LIVE){ discard(&X[i]); sim_progress(); }
   K->n=0; for(int i=0;i<A.nx;i++) if(X[i].state==LIVE){ int n=K->n++; K->addr[n]=X[i].addr; K->type[n]=X[i].type; for(int j=0;j<NP;j++){ K->ver[n][j]=X[i].p[j].ver; K->alive[n][j]=X[i].p[j].alive; } }
   cache_flush(CC);
   uenv_down(&E,1); unit_leakcheck(); US->done=1; sim_progress(); }
static void run(void){ rng_t r; rng_seed(&r,OPT.seed,0x91a7); int n=1+rng_below(&r,3); disk_reset(); for(int s=0;s<n;s++){ sched_cfg sc; fault_cfg fc; unit_sched(s,&sc,&fc,1); sim_hang_limit=6000000; if(!unit_session(main_,s,&sc,&fc)) return; } }
static harness H_cache={"cache",unit_init,run,COVN}; REGISTER_HARNESS(H_cache)
