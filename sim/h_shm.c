/* C12: the shared-memory heap. Threads allocate, reallocate and free blocks of all sizes in one or two segments, up to
   exhaustion; every block's bytes are filled and checked until it is given back. */
#include "unit.h"
#include "platform_linux/shmem.h"
static const char *COVN[]={"allocs","zallocs","large_allocs","reallocs","shrinks","realloc_zero","zero_size","frees","failed","huge","recycled_large","heaps","heap_destroyed_early","exhausted_sessions","reuse_checked","realloc_failed",0};
enum { CV_A, CV_Z, CV_L, CV_RA, CV_SHR, CV_RZ, CV_ZS, CV_F, CV_FAIL, CV_HUGE, CV_REC, CV_HEAPS, CV_EARLY, CV_EXH, CV_REUSE, CV_RF };
#define NB 1024
#define MARGIN 92160u      /* not smaller than what the library calls large, in any build */
typedef struct { u8*p; u64 n, tag; int heap, used, busy; } blk;
typedef struct { platform_heap_id id; u8*lo,*hi; u64 size; int up; u64 req; u64 infl; int nl; u64 la[1024], ls[1024]; } hp;
static blk B[NB]; static hp H[2]; static struct { int nt, nops, nh, phases, w[5], big, live; } A; static int PH, destroyer;
static void fill(blk*b){ u64 t=b->tag; u64 n=b->n; if(n<=4096) for(u64 i=0;i<n;i++) b->p[i]=(u8)hash2(t,i); else { for(u64 i=0;i<2048;i++) b->p[i]=(u8)hash2(t,i), b->p[n-1-i]=(u8)hash2(t,n-1-i); for(u64 i=2048;i<n-2048;i+=509) b->p[i]=(u8)hash2(t,i); } }
static void check(blk*b,u64 n,const char*what){ u64 t=b->tag; u64 N=b->n; for(u64 i=0;i<n;i++){ if(N>4096&&i==2048){ i=2048; } if(N>4096&&i>=2048&&i<N-2048){ if((i-2048)%509){ i=2048+((i-2048)/509+1)*509; if(i>=N-2048) i=N-2048; if(i>=n) break; if(i<N-2048){ } } } if(N<=4096||i<2048||i>=N-2048||(i-2048)%509==0) UCHK(b->p[i]==(u8)hash2(t,i),"%s: byte %llu of the %llu bytes at %p (in heap %d at offset %llu) has changed",what,(unsigned long long)i,(unsigned long long)N,(void*)b->p,b->heap,(unsigned long long)(b->p-H[b->heap].lo)); } }
static void placed(hp*h,int hi,u8*p,u64 n,u64 al,const char*what){ UCHK(p>=h->lo&&p+n<=h->hi&&p+n>=p,"%s: block of %llu bytes at offset %lld is not inside the segment of %llu bytes",what,(unsigned long long)n,(long long)(p-h->lo),(unsigned long long)h->size); UCHK(((u64)p&(al-1))==0,"%s: block at %p is not aligned to %llu",what,(void*)p,(unsigned long long)al);
   for(int i=0;i<NB;i++) if(B[i].used&&B[i].heap==hi){ u64 m=B[i].n?B[i].n:1, k=n?n:1; UCHK(p+k<=B[i].p||B[i].p+m<=p,"%s: block of %llu bytes at offset %llu overlaps the live block of %llu bytes at offset %llu",what,(unsigned long long)n,(unsigned long long)(p-h->lo),(unsigned long long)B[i].n,(unsigned long long)(B[i].p-h->lo)); } }
static u64 rsize(rng_t*r){ switch(RND(12)){ case 0: return 1+RND(16); case 1: return 64*(1+RND(8)); case 2: case 3: return 1+RND(300); case 4: return 1+RND(5000); case 5: return 20000+RND(40000); case 6: return A.big?MARGIN+RND(200000):1+RND(100); case 7: return A.big?38*1024-100+RND(200):1; case 8: return A.big?MARGIN-100+RND(200):63; default: return 1+rng_logu(r,1,2000); } }
static u64 up64(u64 n){ return (n+63)/64*64; }
/* a refusal is justified only if the room there was may have been taken by calls that were under way */
typedef struct { u64 f0, infl0, req0, n; } refu; static refu rbegin(hp*h,u64 n){ refu x; x.n=up64(n?n:1); x.infl0=h->infl; x.req0=h->req; x.f0=platform_shmbytes_free(h->id); h->infl+=x.n; h->req+=x.n; return x; }
static void rend(hp*h,refu*x,int failed,const char*what){ h->infl-=x->n; if(failed){ u64 taken=x->infl0+(h->req-x->req0-x->n); UCHK(x->f0<taken+x->n,"%s of %llu bytes refused although %llu bytes are free and others can have taken only %llu",what,(unsigned long long)x->n,(unsigned long long)x->f0,(unsigned long long)taken); US->cov[CV_FAIL]++; } }
static void note_large(hp*h,u8*p,u64 n){ if(n<16384) return; for(int i=0;i<h->nl;i++) if(h->la[i]==(u64)p){ US->cov[CV_REC]++; return; } if(h->nl<1024){ h->la[h->nl]=(u64)p; h->ls[h->nl++]=n; } }
static blk *slot(rng_t*r){ int k=RND(NB); for(int i=0;i<NB;i++) if(!B[(k+i)%NB].used&&!B[(k+i)%NB].busy) return &B[(k+i)%NB]; return 0; }
static blk *live(rng_t*r){ int k=RND(NB); for(int i=0;i<NB;i++){ blk*b=&B[(k+i)%NB]; if(b->used&&!b->busy) return b; } return 0; }
static void op_alloc(rng_t*r){ int hi=RND(A.nh); hp*h=&H[hi]; if(!h->up) return; blk*b=slot(r); if(!b) return; u64 n=rsize(r), al=RND(3)?64:1<<RND(7); int z=RND(3)==0, zero=RND(25)==0; if(zero) n=0; b->busy=1; refu x=rbegin(h,n);
   u8*p=z?platform_aligned_zalloc(h->id,al,n,"b",__func__,__FILE__,__LINE__):platform_aligned_malloc(h->id,al,n,"b",__func__,__FILE__,__LINE__); rend(h,&x,!p&&n,"allocation");
   if(p){ placed(h,hi,p,n,al,"allocation"); if(z) for(u64 i=0;i<n;i++) UCHK(!p[i],"byte %llu of %llu of a zeroed block is not zero",(unsigned long long)i,(unsigned long long)n); b->p=p; b->n=n; b->heap=hi; b->tag=hash2((u64)p,rng_next(r)); b->used=1; note_large(h,p,n); fill(b); check(b,n,"after allocation"); US->cov[z?CV_Z:CV_A]++; if(n>=MARGIN) US->cov[CV_L]++; if(!n) US->cov[CV_ZS]++; }
   b->busy=0; }
static void op_free(rng_t*r){ blk*b=live(r); if(!b||!H[b->heap].up) return; b->busy=1; check(b,b->n,"before free"); b->used=0; void*p=b->p; platform_free_from_heap(H[b->heap].id,p,"b",__func__,__FILE__,__LINE__); b->busy=0; US->cov[CV_F]++; }
static void op_realloc(rng_t*r){ blk*b=RND(4)?live(r):0; int hi=b?b->heap:(int)RND(A.nh); hp*h=&H[hi]; if(!h->up) return; int fresh=!b; if(fresh){ b=slot(r); if(!b) return; } b->busy=1; u64 on=fresh?0:b->n; if(!fresh&&on==0){ b->busy=0; return; } u64 n=RND(3)?on+1+RND(RND(2)?100:on+100):rsize(r); if(RND(20)==0&&!fresh) n=0; 
   if(!fresh) check(b,on,"before reallocation"); blk o=*b; refu x=rbegin(h,n); b->used=0; /* the old block may be handed to others before the call returns */
   u8*p=platform_realloc(h->id,on,fresh?0:o.p,n); rend(h,&x,!p&&n,"reallocation");
   if(n==0){ UCHK(!p,"reallocation to nothing returned a block"); US->cov[CV_RZ]++; b->busy=0; return; }
   if(!p){ US->cov[CV_RF]++; *b=o; if(!fresh){ b->used=1; b->busy=1; check(b,on,"after a refused reallocation"); } b->busy=0; if(fresh) b->used=0; return; }
   placed(h,hi,p,n,64,"reallocation"); b->p=p; b->heap=hi; { blk t=*b; t.n=on; t.tag=o.tag; if(!fresh){ t.p=p; check(&t,on<n?on:n,"contents after reallocation"); } } if(n<on) US->cov[CV_SHR]++; b->n=n; b->tag=hash2((u64)p,rng_next(r)); b->used=1; note_large(h,p,n); fill(b); check(b,n,"after reallocation"); US->cov[CV_RA]++; b->busy=0; }
static void op_huge(rng_t*r){ int hi=RND(A.nh); hp*h=&H[hi]; if(!h->up) return; u64 n; switch(RND(4)){ case 0: n=h->size+RND(1000); break; case 1: n=~0ull-63-64*RND(3000); break; case 2: n=(u64)-(i64)(h->size/2+64*RND(1000)); n&=~63ull; break; default: n=1ull<<(33+RND(30)); } u8*p=platform_aligned_malloc(h->id,64,n,"huge",__func__,__FILE__,__LINE__); UCHK(!p,"a request of %llu bytes in a segment of %llu bytes succeeded",(unsigned long long)n,(unsigned long long)h->size); US->cov[CV_HUGE]++; }
static void op_check(rng_t*r){ blk*b=live(r); if(!b||!H[b->heap].up) return; b->busy=1; check(b,b->n,"live block"); b->busy=0; }
static void client(int t){ int tot=0; for(int i=0;i<5;i++) tot+=A.w[i]; platform_set_tid(t+1);
   for(int i=0;i<A.nops;i++){ u64 id=(u64)US->sess<<48|(u64)PH<<44|(u64)t<<32|i; if(op_skipped(id)) continue; rng_t r0=op_rng(id),*r=&r0; int k=RND(tot),o=0; while(k>=A.w[o]) k-=A.w[o++]; switch(o){ case 0: op_alloc(r); break; case 1: op_free(r); break; case 2: op_realloc(r); break; case 3: op_huge(r); break; case 4: op_check(r); break; } US->ops++; sim_progress(); } }
static void heap_up(int i,rng_t*r){ hp*h=&H[i]; memset(h,0,sizeof *h); u64 n=RND(3)?(256<<10)+RND(2<<20):(4<<20)+RND(24<<20); h->size=RND(3)?n/4096*4096:n/64*64; h->id=0; platform_status rc=platform_heap_create(platform_get_module_id(),h->size,TRUE,&h->id); UCHK(SUCCESS(rc),"heap creation failed"); h->lo=(u8*)h->id; h->hi=h->lo+h->size; h->lo+=platform_shm_ctrlblock_size(); h->up=1; US->cov[CV_HEAPS]++;
   UCHK(platform_shmsize(h->id)==h->size&&platform_shmbytes_used(h->id)+platform_shmbytes_free(h->id)<=h->size,"sizes of the new segment are wrong"); UCHK(platform_get_heap_id()==h->id,"the new heap is not the current one"); }
static void heap_down(int i){ hp*h=&H[i]; h->up=0; platform_heap_destroy(&h->id); UCHK(!h->id,"heap handle not cleared"); for(int j=0;j<NB;j++) if(B[j].heap==i) B[j].used=0; }
static void quiesced(rng_t*r){ for(int i=0;i<NB;i++){ UCHK(!B[i].busy,"model"); if(B[i].used) check(&B[i],B[i].n,"at rest"); }
   for(int hi=0;hi<A.nh;hi++) if(H[hi].up){ hp*h=&H[hi]; UCHK(h->infl==0,"model"); 
      /* what was given back of the sizes that are recycled can be had again, even from an exhausted segment */
      for(int j=0;j<h->nl&&h->nl<=128;j++) if(h->ls[j]>=MARGIN&&RND(3)==0){ int used=0; for(int k=0;k<NB;k++) if(B[k].used&&B[k].heap==hi&&(u64)B[k].p==h->la[j]) used=1; if(used) continue; u8*p=platform_aligned_malloc(h->id,64,h->ls[j],"again",__func__,__FILE__,__LINE__); UCHK(p,"%llu bytes refused although a block of that size has been freed",(unsigned long long)h->ls[j]); placed(h,hi,p,h->ls[j],64,"recycled block"); int known=0; for(int k=0;k<h->nl;k++) known|=h->la[k]==(u64)p; UCHK(known,"a new block of %llu bytes was carved although one had been freed",(unsigned long long)h->ls[j]); platform_free_from_heap(h->id,p,"again",__func__,__FILE__,__LINE__); US->cov[CV_REUSE]++; }
      u64 f=platform_shmbytes_free(h->id); if(f<65536) US->cov[CV_EXH]++; if(f>=4096){ u64 n=64*(1+RND(40)); for(int k=0;k<3;k++){ u8*p=platform_aligned_malloc(h->id,64,n,"small",__func__,__FILE__,__LINE__); UCHK(p,"%llu bytes refused with %llu free",(unsigned long long)n,(unsigned long long)f); placed(h,hi,p,n,64,"small block"); platform_free_from_heap(h->id,p,"small",__func__,__FILE__,__LINE__); UCHK(platform_shmbytes_free(h->id)==f,"a small block allocated and freed at once costs %lld bytes",(long long)(f-platform_shmbytes_free(h->id))); } }
      sim_progress(); } }
static void main_(void*a){ rng_t r0,*r=&r0; rng_seed(r,OPT.seed,0x5431); memset(&A,0,sizeof A); memset(B,0,sizeof B); A.nt=1+RND(8); A.nops=1+rng_logu(r,5,RND(2)?150:600); A.phases=1+RND(3); A.nops=A.nops/A.phases+1; if(OPT.max_ops&&A.nops>(int)OPT.max_ops) A.nops=OPT.max_ops; A.nh=1+(RND(3)==0); A.big=RND(3); int base[5]={40,25,18,2,10}; for(int i=0;i<5;i++) A.w[i]=RND(5)==0?0:RND(3)==0?base[i]*3:base[i]; if(!A.w[0]) A.w[0]=10;
   US->state=hash3(A.nt,A.nh,A.big); platform_set_tid(0); for(int i=0;i<A.nh;i++) heap_up(i,r);
   for(PH=0;PH<A.phases;PH++){ unit_clients(client,A.nt); quiesced(r);
      if(A.nh==2&&RND(3)==0){ int d=RND(2), o=1-d; if(H[d].up&&H[o].up){ platform_heap_id cur=platform_get_heap_id(); int curo=cur==H[o].id; heap_down(d); US->cov[CV_EARLY]++; if(curo) UCHK(platform_get_heap_id()==H[o].id,"destroying one heap made the process forget the other one"); quiesced(r); if(RND(2)) heap_up(d,r); } } }
   for(int i=0;i<A.nh;i++) if(H[i].up) heap_down(i);
   UCHK(platform_get_heap_id()==0,"no heap is left but one is current"); unit_leakcheck(); US->done=1; sim_progress(); }
static void run(void){ disk_reset(); sched_cfg sc; fault_cfg fc; unit_sched(0,&sc,&fc,1); unit_session(main_,0,&sc,&fc); }
static harness H_shm={"shm",unit_init,run,COVN}; REGISTER_HARNESS(H_shm)
