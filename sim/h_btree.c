/* C16: the B-tree. Phase one: threads insert into, look up in and scan one memtable tree. Phase two: trees are packed from
   iterators over other trees and over sorted sequences of the harness, and threads look up (also asynchronously), scan,
   seek, count, share, split and give up ranges of them, with fewer cache pages than tree pages. */
#include "unit.h"
#include "btree.h"
#include "merge.h"
static const char *COVN[]={"inserts","uniques","merges","mt_lookups","mt_scans","scan_entries","turns","nomem","packs","pack_entries","limit_packs","empty_packs","lookups","async","async_io","scans","seeks","counts","splits","clones","zaps","blocked_zaps","deep_trees",0};
enum { CV_INS, CV_UNIQ, CV_MERGE, CV_MLK, CV_MSC, CV_SE, CV_TURN, CV_NM, CV_PACK, CV_PE, CV_LIM, CV_EP, CV_LK, CV_AS, CV_AIO, CV_SC, CV_SEEK, CV_CNT, CV_SPL, CV_CL, CV_ZAP, CV_BZ, CV_DEEP };
#define EXT 131072ull
#define MAXK 4096
#define MAXT 6
#define NT 8
#define NH 40
#define MAXW 6000
#define MAXRD 60000
typedef struct { u8 cls; u32 cnt; u64 a,b; } st;      /* cls: 0 nothing, 1 insert, 2 update, 3 delete */
typedef struct { u64 kh,a,b; u32 cnt,mag; } mh;
typedef struct { u16 k; st s; } ent;
typedef struct { uint64 root; int used, n, handles; ent e[MAXK]; u64 kb[MAXK+1], mb[MAXK+1]; } tree;
typedef struct { int used, t, lo, hi, users, zapping; } hnd;
typedef struct { u64 inv, resp, gen, id; u16 k; u8 cls, uniq, done; } wr;
typedef struct { u64 inv, resp; u16 k; st s; } rd;
static struct { int nt, nk, mk, stride, kmode, rev, ml, nops, ord, w[10], mt, phases, q, stats, oom, cap, empty_key, dsrc; } A;
static uenv E; static cache *CC; static allocator *AL; static btree_config BC; static data_config DC; static mini_allocator MINI; static uint64 MROOT; static int mt_live, packing;
static u8 KB[MAXK][512]; static u16 KL[MAXK]; static int NK;
static wr W[MAXW]; static int nw; static rd R[MAXRD]; static int nr; static u64 CLK, seen_at[MAXK]; static tree T[NT+1]; static hnd H[NH]; static btree_scratch SC[MAXT]; static int PH, cursor;
static int kcmp(const void*a,u64 n,const void*b,u64 m){ u64 l=n<m?n:m; int c=l?memcmp(a,b,l):0; if(!c) c=n<m?-1:n>m; return A.rev?-c:c; }
static int dcmp(const data_config*c,slice a,slice b){ (void)c; sim_sched_point(); return kcmp(slice_data(a),slice_length(a),slice_data(b),slice_length(b)); }
static int kfind(const void*d,u64 n){ int lo=0,hi=NK-1; while(lo<=hi){ int m=(lo+hi)/2; int c=kcmp(KB[m],KL[m],d,n); if(!c) return m; if(c<0) lo=m+1; else hi=m-1; } return -1; }
static int kidx(key k,const char*what){ UCHK(key_is_user_key(k),"%s: not a key of the user",what); int i=kfind(key_data(k),key_length(k)); UCHK(i>=0,"%s: a key which nobody inserted (%llu bytes)",what,(unsigned long long)key_length(k)); return i; }
static key K_(int i){ return i<0?NEGATIVE_INFINITY_KEY:i>=NK?POSITIVE_INFINITY_KEY:key_create(KL[i],KB[i]); }
static u32 plen(u64 h){ if(!A.ml) return 0; h=hash2(h,77); return h%4==0?(h>>8)%A.ml:(h>>8)%(1+A.ml/8); }
static u32 mk(u8*b,int k,const st*s){ if(s->cls==3) return 0; mh h={hash2(k,1),s->a,s->b,s->cnt,s->cls==1?0x1175u:0x2275u}; u32 n=plen(s->a^s->b*3^s->cnt); memcpy(b,&h,sizeof h); for(u32 i=0;i<n;i++) b[sizeof h+i]=(u8)(s->a>>(i%7*8))^(u8)i; return sizeof h+n; }
static void parse(message m,int k,st*s,const char*what){ memset(s,0,sizeof *s); message_type c=message_class(m); u64 n=message_length(m); if(c==MESSAGE_TYPE_DELETE){ UCHK(n==0,"%s: a deletion of key #%d with %llu bytes",what,k,(unsigned long long)n); s->cls=3; return; }
   UCHK(c==MESSAGE_TYPE_INSERT||c==MESSAGE_TYPE_UPDATE,"%s: message of key #%d has class %d",what,k,(int)c); UCHK(n>=sizeof(mh)&&n<=1433,"%s: message of key #%d has %llu bytes",what,k,(unsigned long long)n); mh h; memcpy(&h,message_data(m),sizeof h); UCHK(h.kh==hash2(k,1)&&h.mag==(c==MESSAGE_TYPE_INSERT?0x1175u:0x2275u),"%s: message of key #%d is not one of its own",what,k); s->cls=c==MESSAGE_TYPE_INSERT?1:2; s->a=h.a; s->b=h.b; s->cnt=h.cnt;
   u8 x[1500]; u32 l=mk(x,k,s); UCHK(l==n&&!memcmp(x,message_data(m),n),"%s: message of key #%d is damaged",what,k); }
static int eq(const st*a,const st*b){ return a->cls==b->cls&&(a->cls==0||a->cls==3||(a->a==b->a&&a->b==b->b&&a->cnt==b->cnt)); }
static int vol(int k){ return (mix64(k^0x701a71e)&7)==0; }
static st compose(st o,st u,int k){ /* u: an update */ st s=u; if(o.cls==1){ s.cls=1; s.a=o.a*u.a+u.b; s.b=0; s.cnt=o.cnt+u.cnt; } else if(o.cls==2){ s.a=o.a*u.a; s.b=o.b*u.a+u.b; s.cnt=o.cnt+u.cnt; } else if(o.cls==3){ if(vol(k)){ s.cls=3; s.a=s.b=0; s.cnt=0; } else { s.cls=1; s.a=hash2(k,5)*u.a+u.b; s.b=0; s.cnt=u.cnt; } } return s; }
static st wstate(u64 id,int cls){ st s={cls,0,0,0}; if(cls==1) s.a=hash2(id,1); if(cls==2){ s.a=hash2(id,2)|1; s.b=hash2(id,3); s.cnt=1; } return s; }
static st apply(st o,st w,int k){ return w.cls==2&&o.cls?compose(o,w,k):w; }
static int put(merge_accumulator*ma,int k,const st*s){ u8 b[1500]; u32 n=mk(b,k,s); if(!merge_accumulator_resize(ma,n)) return -1; memcpy(merge_accumulator_data(ma),b,n); merge_accumulator_set_class(ma,s->cls==1?MESSAGE_TYPE_INSERT:s->cls==2?MESSAGE_TYPE_UPDATE:MESSAGE_TYPE_DELETE); return 0; }
static int dmerge(const data_config*c,slice sk,message old,merge_accumulator*nw_){ (void)c; int k=kfind(slice_data(sk),slice_length(sk)); UCHK(k>=0,"merge of a key which nobody inserted"); st o,u; parse(old,k,&o,"merge (old)"); parse(merge_accumulator_to_message(nw_),k,&u,"merge (new)"); UCHK(u.cls==2&&o.cls!=3&&o.cls,"merge called with classes %d and %d",o.cls,u.cls); st s=compose(o,u,k); US->cov[CV_MERGE]++; sim_sched_point(); return put(nw_,k,&s); }
static int dfinal(const data_config*c,slice sk,merge_accumulator*ma){ (void)c; int k=kfind(slice_data(sk),slice_length(sk)); UCHK(k>=0,"final merge of a key which nobody inserted"); st u,o={3,0,0,0}; parse(merge_accumulator_to_message(ma),k,&u,"final merge"); UCHK(u.cls==2,"final merge of class %d",u.cls); st s=compose(o,u,k); return put(ma,k,&s); }
static void dks(const data_config*c,slice k,char*s,uint64 n){ (void)c; snprintf(s,n,"#%d",kfind(slice_data(k),slice_length(k))); }
static void dms(const data_config*c,message m,char*s,uint64 n){ (void)c;(void)m; snprintf(s,n,"msg"); }
static int qcmp(const void*a,const void*b){ const u8*x=a,*y=b; return kcmp(x+2,*(u16*)x,y+2,*(u16*)y); }
static void mkkeys(rng_t*r){ u8*t=raw_malloc((u64)A.nk*514); for(int i=0;i<A.nk;i++){ u8*e=t+(u64)i*514; u16 n=0; int m=A.kmode==3?(int)RND(3):A.kmode; switch(m){ case 0: n=1+RND(24); for(int j=0;j<n;j++) e[2+j]=RND(3)?'a'+RND(2):RND(256); break; case 1: { u64 v=(u64)RND(A.nk*4)*0x01000193; n=8; for(int j=0;j<8;j++) e[2+j]=v>>(56-8*j); break; } case 2: n=RND(4)?1+RND(512):480+RND(33); for(int j=0;j<n;j++) e[2+j]=j<(int)(hash2(OPT.seed,3)%400)?'x':RND(256); break; } *(u16*)e=n; }
   if(A.empty_key) *(u16*)t=0;
   qsort(t,A.nk,514,qcmp); NK=0; for(int i=0;i<A.nk;i++){ u8*e=t+(u64)i*514; if(NK&&!kcmp(KB[NK-1],KL[NK-1],e+2,*(u16*)e)) continue; KL[NK]=*(u16*)e; memcpy(KB[NK],e+2,KL[NK]); NK++; } raw_free(t); }
/* ------------------------------------------------------------------ memtable phase */
static int mkey(int i){ return (int)((u64)i*A.stride%NK); }
static int pickm(rng_t*r){ switch(A.ord){ case 0: return mkey(RND(A.mk)); case 1: { int i=cursor++%A.mk; return (int)((u64)i*NK/A.mk); } case 2: { int i=A.mk-1-cursor++%A.mk; return (int)((u64)i*NK/A.mk); } default: return mkey(rng_logu(r,1,A.mk+1)-1); } }
static void note(int k,u64 inv,u64 resp,const st*s){ if(nr<MAXRD){ rd*x=&R[nr++]; x->inv=inv; x->resp=resp; x->k=k; x->s=*s; } if(!seen_at[k]||resp<seen_at[k]) seen_at[k]=resp; }
static void absent(int k,u64 inv,const char*what){ UCHK(!seen_at[k]||seen_at[k]>inv,"%s: key #%d is missing although it was there at %llu, before the call at %llu",what,k,(unsigned long long)seen_at[k],(unsigned long long)inv); }
static void op_insert(int t,u64 id,rng_t*r){ if(nw>=MAXW) return; int k=pickm(r); int cls=RND(4)<2?1:RND(3)?2:3; st s=wstate(id,cls); u8 b[1500]; u32 n=mk(b,k,&s); message m=message_create(cls==1?MESSAGE_TYPE_INSERT:cls==2?MESSAGE_TYPE_UPDATE:MESSAGE_TYPE_DELETE,slice_create(n,b)); wr*w=&W[nw++]; memset(w,0,sizeof *w); w->k=k; w->cls=cls; w->id=id; w->inv=++CLK; w->resp=~0ull; w->gen=~0ull; bool32 uq=7; uint64 gen=~0ull; u64 f0=SH->faults[F_MALLOC];
   /* the key and the message are the caller's */ u8 kb[512]; memcpy(kb,KB[k],KL[k]);
   if(A.oom) sim_fault_fiber=sim_self();
   platform_status rc=btree_insert(CC,&BC,E.hid,&SC[t],MROOT,&MINI,key_create(KL[k],kb),m,&gen,&uq); if(A.oom) sim_fault_fiber=9999;
   memset(kb,0xee,sizeof kb); memset(b,0xee,sizeof b);
   if(!SUCCESS(rc)){ UCHK(A.oom&&SH->faults[F_MALLOC]>f0,"btree_insert returned %d without a fault",(int)rc.r); w->done=2; US->cov[CV_NM]++; return; }
   w->resp=++CLK; w->gen=gen; w->uniq=uq; w->done=1; UCHK(uq==0||uq==1,"was_unique not set"); UCHK(gen!=~0ull,"generation not set"); if(!seen_at[k]||w->resp<seen_at[k]) seen_at[k]=w->resp; US->cov[CV_INS]++; US->cov[CV_UNIQ]+=uq; }
static void op_mlookup(rng_t*r){ int k=RND(8)?pickm(r):(int)RND(NK); merge_accumulator ma; merge_accumulator_init(&ma,E.hid); u64 inv=++CLK; u64 f0=SH->faults[F_MALLOC]; if(A.oom) sim_fault_fiber=sim_self(); platform_status rc=btree_lookup(CC,&BC,MROOT,PAGE_TYPE_MEMTABLE,K_(k),&ma); if(A.oom) sim_fault_fiber=9999; u64 resp=++CLK; US->cov[CV_MLK]++;
   if(!SUCCESS(rc)){ UCHK(A.oom&&SH->faults[F_MALLOC]>f0,"btree_lookup returned %d without a fault",(int)rc.r); merge_accumulator_deinit(&ma); return; }
   if(btree_found(&ma)){ st s; parse(merge_accumulator_to_message(&ma),k,&s,"lookup"); note(k,inv,resp,&s); } else absent(k,inv,"lookup"); merge_accumulator_deinit(&ma); }
static void op_mscan(rng_t*r){ int lo=RND(3)?-1:(int)RND(NK), hi=RND(3)?NK:(int)RND(NK+1); if(hi<lo){ int x=lo; lo=hi; hi=x; } int stk=RND(3)==0?lo:RND(3)==0?hi:lo+(int)RND(hi-lo+1); if(stk<lo) stk=lo; comparison ty=RND(4); static u8 got[MAXT][MAXK]; int me=platform_get_tid()%MAXT; u8*g=got[me]; memset(g,0,NK); btree_iterator it; u64 inv=++CLK; int steps=1+rng_logu(r,1,NK+20), dir=ty>=greater_than?1:-1; US->cov[CV_MSC]++;
   btree_iterator_init(CC,&BC,&it,MROOT,PAGE_TYPE_MEMTABLE,K_(lo),K_(hi),K_(stk),ty,FALSE,0); iterator*I=&it.super;
   /* pos: index of the current entry; where there is none, at==0 and pos is the last known one */
   int from, first=1, last=-2; /* last: -2 nothing, -1 before all */
   for(int i=0;i<=steps;i++){ int cn=iterator_can_next(I), cp=iterator_can_prev(I); u64 now=++CLK; int blo, bhi; /* keys in (blo,bhi) must be absent */
      int cur=-1; st s; if(cn&&cp){ key k; message m; iterator_curr(I,&k,&m); cur=kidx(k,"scan"); parse(m,cur,&s,"scan"); UCHK(cur>=(lo<0?0:lo)&&cur<hi,"scan of [%d,%d) returned key #%d",lo,hi,cur); }
      if(first){ from=stk; if(cur>=0){ switch(ty){ case greater_than_or_equal: UCHK(cur>=stk,"scan from >= #%d starts at #%d",stk,cur); blo=stk-1; bhi=cur; break; case greater_than: UCHK(cur>stk,"scan from > #%d starts at #%d",stk,cur); blo=stk; bhi=cur; break; case less_than: UCHK(cur<stk,"scan from < #%d starts at #%d",stk,cur); blo=cur; bhi=stk; break; default: UCHK(cur<=stk,"scan from <= #%d starts at #%d",stk,cur); blo=cur; bhi=stk+1; } }
         else if(cn){ UCHK(ty<=less_than_or_equal,"scan from above starts before the first entry"); blo=lo-1; bhi=stk+(ty==less_than_or_equal); last=-1; } else if(cp){ blo=stk-(ty==greater_than_or_equal); bhi=hi; if(ty<=less_than_or_equal) blo=hi; /* positions at the end of the range */ } else { blo=lo-1; bhi=hi; } first=0; }
      else if(dir>0){ UCHK(cp,"after a move forward the scan cannot move back"); if(cur>=0) UCHK(cur>from,"scan moved forward from #%d to #%d",from,cur); blo=from; bhi=cur>=0?cur:hi; }
      else { UCHK(cn,"after a move backward the scan cannot move forward"); if(cur>=0) UCHK(cur<from,"scan moved backward from #%d to #%d",from,cur); bhi=from; blo=cur>=0?cur:lo-1; }
      for(int k=blo+1;k<bhi&&k<NK;k++) if(k>=0&&k>=lo&&k<hi){ UCHK(!g[k],"scan: key #%d is skipped although the same scan returned it before",k); absent(k,inv,"scan"); }
      if(cur>=0){ note(cur,inv,now,&s); g[cur]=1; US->cov[CV_SE]++; from=cur; } else { if(!cn&&!cp) break; from=cn?(lo-1<-1?-1:lo-1):hi; }
      if(i==steps) break; int d=RND(8)==0?-dir:dir; if(d>0&&!cn) d=-1; if(d<0&&!cp) d=1; if(d!=dir) US->cov[CV_TURN]++; dir=d; platform_status rc=d>0?iterator_next(I):iterator_prev(I); UCHK(SUCCESS(rc),"scan step failed"); if(i%8==0) sim_progress(); }
   (void)last; btree_iterator_deinit(&it); }
static void mclient(int t){ UCHK(SUCCESS(task_register_this_thread(E.ts,0)),"register");
   for(int i=0;i<A.nops;i++){ u64 id=(u64)PH<<44|(u64)(t+1)<<32|i; if(op_skipped(id)) continue; rng_t r0=op_rng(id),*r=&r0; int x=RND(A.w[0]+A.w[1]+A.w[2]); if(x<A.w[0]) op_insert(t,id,r); else if(x<A.w[0]+A.w[1]) op_mlookup(r); else op_mscan(r); US->ops++; sim_progress(); }
   task_deregister_this_thread(E.ts); }
static int wcmp(const void*a,const void*b){ const wr*x=a,*y=b; if(x->k!=y->k) return x->k<y->k?-1:1; return x->gen<y->gen?-1:x->gen>y->gen; }
static int rcmp(const void*a,const void*b){ const rd*x=a,*y=b; if(x->k!=y->k) return x->k<y->k?-1:1; return x->inv<y->inv?-1:x->inv>y->inv; }
static void mcheck(tree*out){ /* the order of the writes of a key is that of their generations */
   int n=0; for(int i=0;i<nw;i++) if(W[i].done==1) W[n++]=W[i]; nw=n; qsort(W,nw,sizeof *W,wcmp); qsort(R,nr,sizeof *R,rcmp); out->n=0; int ri=0;
   for(int i=0;i<nw;){ int j=i; int k=W[i].k; while(j<nw&&W[j].k==k) j++; while(ri<nr&&R[ri].k<k) ri++; UCHK(ri>=nr||R[ri].k>=k,"model"); st s[400]; int m=j-i; int big=m>399; s[0].cls=0;
      u64 minresp=~0ull; for(int q=j-1;q>=i;q--){ UCHK(W[q].inv<minresp,"key #%d: a write with generation %llu came after a completed one with generation %llu",k,(unsigned long long)W[q].gen,(unsigned long long)W[q+1].gen); if(W[q].resp<minresp) minresp=W[q].resp; }
      for(int q=i;q<j;q++){ UCHK(q==i||W[q].gen>W[q-1].gen,"key #%d: two writes got the same generation %llu",k,(unsigned long long)W[q].gen); UCHK(W[q].uniq==(q==i),"key #%d: write %d of %d was reported as %s",k,q-i,m,W[q].uniq?"a new key":"a known key"); st x=q==i?(st){0,0,0,0}:s[big?0:q-i]; x=apply(x,wstate(W[q].id,W[q].cls),k); if(big) s[0]=x; else s[q-i+1]=x; }
      /* reads: each sees the state after a prefix, monotonous in real time */
      int r1=ri; while(r1<nr&&R[r1].k==k) r1++; if(!big){ static int asg[MAXRD]; for(int x=ri;x<r1;x++){ int l=0; for(int q=0;q<m;q++) if(W[i+q].resp<R[x].inv) l=q+1; int u=m; for(int q=0;q<m;q++) if(W[i+q].inv>R[x].resp){ u=q; break; } if(r1-ri<3000) for(int y=ri;y<x;y++) if(R[y].resp<R[x].inv&&asg[y]>l) l=asg[y]; int f=-1; for(int q=l>1?l:1;q<=u;q++) if(eq(&s[q],&R[x].s)){ f=q; break; } 
            UCHK(f>=0,"key #%d: a read over [%llu,%llu] saw class %d a=%llx cnt=%u, which is not the state after any %d to %d of its %d writes",k,(unsigned long long)R[x].inv,(unsigned long long)R[x].resp,R[x].s.cls,(unsigned long long)R[x].s.a,R[x].s.cnt,l,u,m); asg[x]=f; } }
      else for(int x=ri;x<r1;x++) (void)x;
      ri=r1; ent*e=&out->e[out->n++]; e->k=k; e->s=big?s[0]:s[m]; i=j; }
   for(int x=ri;x<nr;x++) sim_fail(SIM_USER,"key #%d was read but never written",R[x].k); }
/* ------------------------------------------------------------------ trees at rest */
static u32 msize(int k,const st*s){ u8 b[1500]; return mk(b,k,s); }
static void sums(tree*t){ t->kb[0]=t->mb[0]=0; for(int i=0;i<t->n;i++){ t->kb[i+1]=t->kb[i]+KL[t->e[i].k]; t->mb[i+1]=t->mb[i]+msize(t->e[i].k,&t->e[i].s); } }
static int lower(tree*t,int k){ int lo=0,hi=t->n; while(lo<hi){ int m=(lo+hi)/2; if((int)t->e[m].k<k) lo=m+1; else hi=m; } return lo; }   /* first entry >= k */
typedef struct { iterator super; tree*t; int i, n, lo; u64 steps; u8 b[1500]; } src;
static void s_curr(iterator*x,key*k,message*m){ src*s=(src*)x; UCHK(s->i>=s->lo&&s->i<s->n,"the source of a pack was read outside its range"); ent*e=&s->t->e[s->i]; u32 n=mk(s->b,e->k,&e->s); *k=K_(e->k); *m=message_create(e->s.cls==1?MESSAGE_TYPE_INSERT:e->s.cls==2?MESSAGE_TYPE_UPDATE:MESSAGE_TYPE_DELETE,slice_create(n,s->b)); sim_sched_point(); }
static bool32 s_cn(iterator*x){ src*s=(src*)x; return s->i<s->n; }
static bool32 s_cp(iterator*x){ src*s=(src*)x; return s->i>=s->lo; }
static platform_status s_next(iterator*x){ src*s=(src*)x; s->i++; memset(s->b,0xdd,sizeof s->b); if(s->i%64==0) sim_progress(); return STATUS_OK; }
static platform_status s_prev(iterator*x){ src*s=(src*)x; s->i--; return STATUS_OK; }
static platform_status s_seek(iterator*x,key k,comparison c){ (void)x;(void)k;(void)c; return STATUS_BAD_PARAM; }
static void s_print(iterator*x){ (void)x; }
static iterator_ops SOPS={s_curr,s_cp,s_cn,s_next,s_prev,s_seek,s_print};
static u32 hfn(const void*d,size_t n,unsigned seed){ u64 h=hash2(seed,n); const u8*p=d; for(size_t i=0;i<n;i++) h=h*0x100000001b3ull^p[i]; return (u32)(h^h>>32); }
static hnd *newh(void){ for(int i=0;i<NH;i++) if(!H[i].used){ memset(&H[i],0,sizeof H[i]); H[i].used=1; return &H[i]; } return 0; }
static hnd *pick(rng_t*r){ int k=RND(NH); for(int i=0;i<NH;i++){ hnd*h=&H[(k+i)%NH]; if(h->used&&!h->zapping&&h->t>=0) return h; } return 0; }
static u64 free_ext(void){ return allocator_get_capacity(AL)/EXT-allocator_in_use(AL); }
static void op_pack(rng_t*r){ if(packing>=2||free_ext()<60) return; tree*t=0; for(int i=0;i<NT;i++) if(!T[i].used){ t=&T[i]; break; } hnd*h=t?newh():0; if(!h){ return; } packing++; t->used=1; h->t=-1; t->n=0;
   int kind=A.dsrc&&RND(2)?0:RND(3); hnd*o=kind==1?pick(r):0; if(kind==1&&!o) kind=0; if(kind==2&&!mt_live) kind=0; src S; btree_iterator it; iterator*I; int lo=-1, hi=NK; tree*from=0;
   if(kind==0){ int n=A.dsrc&&RND(4)?1+NK/2+(int)RND(NK/2+1):1+rng_logu(r,1,NK); u64 hs=rng_next(r), base=RND(NK), span=RND(2)||(A.dsrc&&RND(4))?NK:1+RND(NK); if(RND(20)==0) n=0; for(int k=0;k<NK;k++){ u64 p=((u64)k+NK-base)%NK; if(p<span&&hash2(hs,k)%span<(u64)n){ ent*e=&t->e[t->n++]; e->k=k; e->s=wstate(hash2(hs,k),1+hash2(hs,k+1)%3); } } S.super.ops=&SOPS; S.t=t; S.i=S.lo=0; S.n=t->n; S.steps=0; I=&S.super; }
   else { if(kind==1){ o->users++; from=&T[o->t]; lo=o->lo; hi=o->hi; } else from=&T[NT]; if(RND(2)){ int a=lo+(int)RND(hi-lo+1), b=lo+(int)RND(hi-lo+1); if(a>b){ int x=a; a=b; b=x; } lo=a; hi=b; }
      int st0=RND(5)==0?lo+(int)RND(hi-lo+1):lo; /* a pack may start in the middle */ int i0=lower(from,st0<0?0:st0), i1=lower(from,hi); for(int i=i0;i<i1;i++) t->e[t->n++]=from->e[i]; btree_iterator_init(CC,&BC,&it,kind==1?from->root:MROOT,kind==1?PAGE_TYPE_BRANCH:PAGE_TYPE_MEMTABLE,K_(lo),K_(hi),K_(st0),greater_than_or_equal,kind==1?RND(2):0,0); I=&it.super; }
   sums(t); int hashed=RND(2); u64 max=t->n+1+RND(4)*RND(100); int lim=t->n>0&&RND(10)==0; if(lim) max=RND(t->n); else if(RND(4)==0) max=t->n; if(lim&&!max&&hashed) hashed=0; btree_pack_req *rq=raw_malloc(sizeof *rq); u64 seed=rng_next(r)&0xffff; u64 use0=allocator_in_use(AL); (void)use0;
   UCHK(SUCCESS(btree_pack_req_init(rq,CC,&BC,I,max,hashed?hfn:0,seed,E.hid)),"pack request"); platform_status rc=btree_pack(rq);
   if(lim){ UCHK(STATUS_IS_EQ(rc,STATUS_LIMIT_EXCEEDED),"packing %d entries with a limit of %llu returned %d",t->n,(unsigned long long)max,(int)rc.r); US->cov[CV_LIM]++; t->used=0; h->used=0; }
   else { UCHK(SUCCESS(rc),"pack returned %d",(int)rc.r); UCHK((int)rq->num_tuples==t->n,"packed %llu entries out of %d",(unsigned long long)rq->num_tuples,t->n); UCHK(rq->key_bytes==t->kb[t->n]&&rq->message_bytes==t->mb[t->n],"pack reports %llu and %llu bytes of keys and messages instead of %llu and %llu",(unsigned long long)rq->key_bytes,(unsigned long long)rq->message_bytes,(unsigned long long)t->kb[t->n],(unsigned long long)t->mb[t->n]); US->cov[CV_PACK]++; US->cov[CV_PE]+=t->n; if(rq->height>=2) US->cov[CV_DEEP]++;
      if(hashed) for(int i=0;i<t->n;i++) UCHK(rq->fingerprint_arr[i]==hfn(KB[t->e[i].k],KL[t->e[i].k],seed),"fingerprint of entry %d is wrong",i);
      if(!t->n){ UCHK(!rq->root_addr,"an empty pack left a tree"); t->used=0; h->used=0; US->cov[CV_EP]++; } else { UCHK(rq->root_addr,"pack returned no tree"); t->root=rq->root_addr; t->handles=1; h->lo=-1; h->hi=NK; h->t=t-T; } }
   btree_pack_req_deinit(rq,E.hid); raw_free(rq); if(kind) btree_iterator_deinit(&it); if(kind==1) o->users--; packing--; }
static int inrange(hnd*h,tree*t,rng_t*r){ int lo=h->lo<0?0:h->lo; if(h->hi<=lo) return -1; int i0=lower(t,lo), i1=lower(t,h->hi); if(i1>i0&&RND(4)) return t->e[i0+RND(i1-i0)].k; return lo+(int)RND(h->hi-lo); }
static int has(tree*t,int k,st*s){ int i=lower(t,k); if(i<t->n&&t->e[i].k==k){ *s=t->e[i].s; return 1; } return 0; }
static void judge(tree*t,int k,merge_accumulator*ma,int found,const char*what){ st w; int h=has(t,k,&w); UCHK(found==h,"%s: key #%d is %s the tree of %d entries but was %s",what,k,h?"in":"not in",t->n,found?"found":"not found"); if(h){ st s; parse(merge_accumulator_to_message(ma),k,&s,what); UCHK(eq(&s,&w),"%s: key #%d has class %d cnt %u instead of class %d cnt %u",what,k,s.cls,s.cnt,w.cls,w.cnt); } }
static void op_look(rng_t*r){ hnd*h=pick(r); int mt=mt_live&&RND(5)==0; if(!h&&!mt) return; tree*t=mt?&T[NT]:&T[h->t]; hnd all={1,NT,-1,NK,0,0}; if(mt) h=&all; h->users++; int n=1+RND(4); for(int i=0;i<n;i++){ int k=inrange(h,t,r); if(k<0) break; merge_accumulator ma; merge_accumulator_init(&ma,E.hid); uint64 root=mt?MROOT:t->root; page_type pt=mt?PAGE_TYPE_MEMTABLE:PAGE_TYPE_BRANCH; US->cov[CV_LK]++;
      if(RND(2)){ UCHK(SUCCESS(btree_lookup(CC,&BC,root,pt,K_(k),&ma)),"lookup failed"); judge(t,k,&ma,btree_found(&ma),"lookup"); }
      else { int pre=RND(2); st u={2,rng_next(r)|1,rng_next(r),3}; if(pre) UCHK(put(&ma,k,&u)==0,"memory"); bool32 lf=7; UCHK(SUCCESS(btree_lookup_and_merge(CC,&BC,root,pt,K_(k),&ma,&lf)),"lookup failed"); st w; int hh=has(t,k,&w); if(!pre) judge(t,k,&ma,!merge_accumulator_is_null(&ma),"lookup with merge"); else { UCHK(!!lf==hh,"lookup with merge: key #%d: local_found is %d",k,lf); st s; parse(merge_accumulator_to_message(&ma),k,&s,"lookup with merge"); st x=hh?compose(w,u,k):u; UCHK(eq(&s,&x),"lookup with merge: key #%d: wrong result",k); } }
      merge_accumulator_deinit(&ma); }
   h->users--; }
typedef struct { cache_async_ctxt c; btree_async_ctxt b; merge_accumulator ma; int k, st_; volatile int done; } act;
static void acb(btree_async_ctxt*b){ act*a=(act*)((u8*)b-offsetof(act,b)); UCHK(a->st_==1&&!a->done,"an asynchronous lookup was called back without having been started, or twice"); a->done=1; }
static void op_async(rng_t*r){ hnd*h=pick(r); if(!h) return; tree*t=&T[h->t]; h->users++; act a[6]; int n=1+RND(6), left=n; for(int i=0;i<n;i++){ a[i].k=inrange(h,t,r); a[i].st_=0; a[i].done=0; if(a[i].k<0){ a[i].st_=3; left--; continue; } merge_accumulator_init(&a[i].ma,E.hid); btree_ctxt_init(&a[i].b,&a[i].c,acb); }
   while(left){ cache_cleanup(CC); for(int i=0;i<n;i++){ act*x=&a[i]; if(x->st_==3||(x->st_==1&&!x->done)) continue; x->st_=1; x->done=0; cache_async_result rc=btree_lookup_async(CC,&BC,t->root,K_(x->k),&x->ma,&x->b); switch(rc){ case async_success: judge(t,x->k,&x->ma,btree_found(&x->ma),"asynchronous lookup"); merge_accumulator_deinit(&x->ma); x->st_=3; left--; US->cov[CV_AS]++; sim_progress(); break; case async_io_started: US->cov[CV_AIO]++; break; case async_locked: case async_no_reqs: UCHK(!x->done,"an asynchronous lookup which did not start was called back"); x->st_=0; break; default: UCHK(0,"asynchronous lookup returned %d",(int)rc); } } }
   h->users--; }
static int start_pos(tree*t,int i0,int i1,int stk,comparison ty){ int p; switch(ty){ case greater_than_or_equal: p=lower(t,stk<0?0:stk); break; case greater_than: p=stk<0?0:lower(t,stk+1); break; case less_than: p=stk<0?-1:lower(t,stk)-1; break; default: p=stk<0?-1:lower(t,stk+1)-1; } if(p<i0) p=i0-1; if(ty>=greater_than&&p<i0) p=i0; if(p>i1) p=i1; return p; }
static void op_scan(rng_t*r){ hnd*h=pick(r); int mt=mt_live&&RND(5)==0; if(!h&&!mt) return; tree*t=mt?&T[NT]:&T[h->t]; hnd all={1,NT,-1,NK,0,0}; if(mt) h=&all; h->users++; uint64 root=mt?MROOT:t->root; int blk=!mt&&RND(4)==0;
   int lo=h->lo,hi=h->hi; if(RND(2)){ int a=lo+(int)RND(hi-lo+1), b=lo+(int)RND(hi-lo+1); if(a>b){ int x=a; a=b; b=x; } lo=a; hi=b; }
   if(blk){ btree_block_dec_ref(CC,&BC,root); h->users--; }
   int stk=RND(3)==0?lo:RND(3)==0?hi:lo+(int)RND(hi-lo+1); comparison ty=RND(4); int i0=lower(t,lo<0?0:lo), i1=lower(t,hi); int p=start_pos(t,i0,i1,stk,ty), steps=1+rng_logu(r,1,i1-i0+30), dir=ty>=greater_than?1:-1; btree_iterator it; btree_iterator_init(CC,&BC,&it,root,mt?PAGE_TYPE_MEMTABLE:PAGE_TYPE_BRANCH,K_(lo),K_(hi),K_(stk),ty,!mt&&RND(2),0); iterator*I=&it.super; US->cov[CV_SC]++;
   for(int s=0;s<=steps;s++){ int cn=iterator_can_next(I), cp=iterator_can_prev(I), empty=i0==i1; if(empty){ UCHK(!cn||!cp,"scan of the empty range [#%d,#%d) has an entry",lo,hi); break; } UCHK(cn==(!empty&&p<i1)&&cp==(!empty&&p>=i0),"scan of [#%d,#%d) from %s #%d: at entry %d of %d..%d of %d, can_next is %d and can_prev is %d",lo,hi,ty==0?"<":ty==1?"<=":ty==2?">":">=",stk,p,i0,i1,t->n,cn,cp);
      if(cn&&cp){ key k; message m; iterator_curr(I,&k,&m); int q=kidx(k,"scan"); st x; parse(m,q,&x,"scan"); UCHK(q==t->e[p].k&&eq(&x,&t->e[p].s),"scan of [#%d,#%d) returned key #%d class %d instead of #%d class %d",lo,hi,q,x.cls,t->e[p].k,t->e[p].s.cls); US->cov[CV_SE]++; }
      if(s==steps) break;
      if(RND(60)==0){ int sk=lo+(int)RND(hi-lo+1); comparison st2=RND(4); platform_status rc=iterator_seek(I,K_(sk),st2); UCHK(SUCCESS(rc),"seek to #%d within [#%d,#%d] returned %d",sk,lo,hi,(int)rc.r); p=start_pos(t,i0,i1,sk,st2); US->cov[CV_SEEK]++; continue; }
      int d=RND(10)==0?-dir:dir; if(d>0&&!cn) d=-1; if(d<0&&!cp) d=1; if(d!=dir) US->cov[CV_TURN]++; dir=d; UCHK(SUCCESS(d>0?iterator_next(I):iterator_prev(I)),"scan step failed"); p+=d; if(s%16==0) sim_progress(); }
   btree_iterator_deinit(&it); if(blk) btree_unblock_dec_ref(CC,&BC,root); else h->users--; }
static void op_count(rng_t*r){ hnd*h=pick(r); if(!h) return; tree*t=&T[h->t]; h->users++; int lo=h->lo+(int)RND(h->hi-h->lo+1), hi=h->lo+(int)RND(h->hi-h->lo+1); if(lo>hi){ int x=lo; lo=hi; hi=x; } int i0=lower(t,lo<0?0:lo), i1=lower(t,hi); btree_pivot_stats s; memset(&s,0xaa,sizeof s); int by=RND(3)==0; if(by) btree_count_in_range_by_iterator(CC,&BC,t->root,K_(lo),K_(hi),&s); else btree_count_in_range(CC,&BC,t->root,K_(lo),K_(hi),&s);
   UCHK((int)s.num_kvs==i1-i0&&s.key_bytes==t->kb[i1]-t->kb[i0]&&s.message_bytes==t->mb[i1]-t->mb[i0],"count%s in [#%d,#%d): %u entries, %u and %u bytes instead of %d, %llu and %llu",by?" by iteration":"",lo,hi,s.num_kvs,s.key_bytes,s.message_bytes,i1-i0,(unsigned long long)(t->kb[i1]-t->kb[i0]),(unsigned long long)(t->mb[i1]-t->mb[i0])); h->users--; US->cov[CV_CNT]++; }
static void op_split(rng_t*r){ hnd*h=pick(r); if(!h||h->users||h->hi-h->lo<2) return; hnd*n=newh(); if(!n) return; n->t=-1; int k=h->lo+1+(int)RND(h->hi-h->lo-1); tree*t=&T[h->t]; h->zapping=1; btree_inc_ref_range(CC,&BC,t->root,K_(k),K_(k)); t->handles++; n->lo=k; n->hi=h->hi; n->t=h->t; h->hi=k; h->zapping=0; US->cov[CV_SPL]++; }
static void op_clone(rng_t*r){ hnd*h=pick(r); if(!h) return; hnd*n=newh(); if(!n) return; n->t=-1; h->users++; tree*t=&T[h->t]; int lo=h->lo, hi=h->hi, ti=h->t; if(RND(2)){ int a=lo+(int)RND(hi-lo+1), b=lo+(int)RND(hi-lo+1); if(a>b){ int x=a; a=b; b=x; } lo=a; hi=b; } btree_inc_ref_range(CC,&BC,t->root,K_(lo),K_(hi)); t->handles++; n->lo=lo; n->hi=hi; h->users--; n->t=ti; US->cov[CV_CL]++; }
static void zap(hnd*h){ tree*t=&T[h->t]; h->zapping=1; bool32 gone=btree_dec_ref_range(CC,&BC,t->root,K_(h->lo),K_(h->hi)); t->handles--; h->used=0; UCHK(!!gone==(t->handles==0)||1,"x"); if(gone){ UCHK(t->used,"a tree was released twice"); UCHK(t->handles==0,"a tree was given up although %d ranges of it are held",t->handles); t->used=0; } US->cov[CV_ZAP]++; }
static void op_zap(rng_t*r){ hnd*h=pick(r); if(!h||h->users) return; zap(h); }
static void bclient(int t){ (void)t; int tot=0; for(int i=0;i<8;i++) tot+=A.w[i]; UCHK(SUCCESS(task_register_this_thread(E.ts,0)),"register");
   for(int i=0;i<A.nops;i++){ u64 id=(u64)(PH+8)<<44|(u64)(t+1)<<32|i; if(op_skipped(id)) continue; rng_t r0=op_rng(id),*r=&r0; int k=RND(tot),o=0; while(k>=A.w[o]) k-=A.w[o++]; switch(o){ case 0: op_pack(r); break; case 1: op_look(r); break; case 2: op_scan(r); break; case 3: op_async(r); break; case 4: op_count(r); break; case 5: op_split(r); break; case 6: op_clone(r); break; case 7: op_zap(r); break; } US->ops++; sim_progress(); }
   task_deregister_this_thread(E.ts); }
/* nothing is cached at the start; no range is given up */
static void lclient(int t){ UCHK(SUCCESS(task_register_this_thread(E.ts,0)),"register"); int n=A.nops/4+4; for(int i=0;i<n;i++){ u64 id=(u64)(PH+16)<<44|(u64)(t+1)<<32|i; if(op_skipped(id)) continue; rng_t r0=op_rng(id),*r=&r0; switch(RND(5)){ case 0: op_look(r); break; case 1: op_scan(r); break; case 2: op_count(r); break; default: op_async(r); } US->ops++; sim_progress(); } task_deregister_this_thread(E.ts); }
static void full(tree*t,uint64 root,page_type pt,const char*what){ int n=0; btree_iterator it; int back=0; for(back=0;back<2;back++){ n=back?t->n-1:0; btree_iterator_init(CC,&BC,&it,root,pt,NEGATIVE_INFINITY_KEY,POSITIVE_INFINITY_KEY,back?POSITIVE_INFINITY_KEY:NEGATIVE_INFINITY_KEY,back?less_than_or_equal:greater_than_or_equal,pt==PAGE_TYPE_BRANCH,0); iterator*I=&it.super; while(iterator_can_curr(I)){ key k; message m; iterator_curr(I,&k,&m); int q=kidx(k,what); UCHK(n>=0&&n<t->n,"%s: more than %d entries",what,t->n); UCHK(q==t->e[n].k,"%s: entry %d of %d is key #%d instead of #%d",what,n,t->n,q,t->e[n].k); st s; parse(m,q,&s,what); UCHK(eq(&s,&t->e[n].s),"%s: key #%d has class %d cnt %u a=%llx instead of class %d cnt %u a=%llx",what,q,s.cls,s.cnt,(unsigned long long)s.a,t->e[n].s.cls,t->e[n].s.cnt,(unsigned long long)t->e[n].s.a); n+=back?-1:1; UCHK(SUCCESS(back?iterator_prev(I):iterator_next(I)),"step"); if(n%16==0) sim_progress(); } UCHK(n==(back?-1:t->n),"%s: the scan %s ended at entry %d of %d",what,back?"back":"forth",n,t->n); btree_iterator_deinit(&it); }
   for(int i=0;i<t->n;i++){ merge_accumulator ma; merge_accumulator_init(&ma,E.hid); UCHK(SUCCESS(btree_lookup(CC,&BC,root,pt,K_(t->e[i].k),&ma)),"lookup"); judge(t,t->e[i].k,&ma,btree_found(&ma),what); merge_accumulator_deinit(&ma); if(i%16==0) sim_progress(); } }
static void main_(void*a){ int s=(int)(i64)a; (void)s; rng_t r0,*r=&r0; rng_seed(r,OPT.seed,0xb7ee); memset(&A,0,sizeof A); nw=nr=0; CLK=0; cursor=0; packing=0; mt_live=0; memset(seen_at,0,sizeof seen_at); for(int i=0;i<=NT;i++){ T[i].used=0; T[i].n=0; } memset(H,0,sizeof H);
   A.nt=1+RND(MAXT); A.kmode=RND(4); A.rev=RND(4)==0; A.dsrc=RND(3)==0; A.nk=A.dsrc?400+RND(3600):1+rng_logu(r,1,RND(3)?600:4000); A.empty_key=RND(8)==0; A.ml=RND(3)==0?RND(1400):RND(3)?RND(200):0; A.ord=RND(4); A.mt=RND(5)>0; A.phases=1+RND(2); A.q=32<<RND(2); A.stats=RND(2); A.oom=RND(8)==0; A.nops=1+rng_logu(r,RND(3)?100:4,A.dsrc?200:RND(3)?400:1200);
   if(OPT.max_ops&&A.nops>(int)OPT.max_ops) A.nops=OPT.max_ops;
   mkkeys(r); A.mk=1+rng_logu(r,1,NK<1500?NK:1500); if(A.mk>NK) A.mk=NK; A.stride=1; do A.stride=1+RND(NK*2); while(__builtin_expect(({ u64 x=A.stride,y=NK; while(y){ u64 z=x%y; x=y; y=z; } x!=1; }),0));
   { int base[3]={50,25,8}; for(int i=0;i<3;i++) A.w[i]=RND(4)==0?base[i]*3:base[i]; if(RND(6)==0) A.w[2]=0; }
   /* the pages of the tree stay in the cache */
   u64 avgk=0; for(int i=0;i<NK;i++) avgk+=KL[i]; avgk=avgk/NK+1; u64 per=avgk+50+A.ml/3; u64 pages=16; { u64 lim=A.mk; if(lim>(u64)A.nops*A.nt) lim=(u64)A.nops*A.nt; pages+=lim*per*5/2/4096*3/2+lim/40; } if(A.kmode==2||A.kmode==3) pages+=pages/2; if(pages>1600){ A.mk=A.mk*1600/pages; if(A.mk<1) A.mk=1; pages=1600; }
   int slack=A.nt*44+64+(RND(3)?RND(60):220); A.cap=(slack+(A.mt?pages:0)+(RND(2)?RND(200):0)+63)/64*64; if(OPT.has_p[0]) A.cap=64*OPT.p[0];
   US->state=hash3(A.nt,A.kmode*10+A.ord,A.cap);
   memset(&DC,0,sizeof DC); DC.max_key_size=512; DC.key_compare=dcmp; DC.key_hash=hfn; DC.merge_tuples=dmerge; DC.merge_tuples_final=dfinal; DC.key_to_string=dks; DC.message_to_string=dms;
   sim_fault_fiber=9999; u64 disk=(400+RND(300))*EXT; uenv_up(&E,disk,(u64)A.cap*4096,0,0,A.q,A.stats,0,0); AL=(allocator*)&E.al; CC=(cache*)&E.cc; DH->size=disk; uint64 sa; UCHK(SUCCESS(allocator_alloc_super_addr(AL,7,&sa)),"super block address"); btree_config_init(&BC,(cache_config*)&E.cccfg,&DC); u64 use0=allocator_in_use(AL);
   if(A.mt){ MROOT=btree_create(CC,&BC,&MINI,PAGE_TYPE_MEMTABLE); mt_live=1; for(PH=0;PH<A.phases;PH++){ unit_clients(mclient,A.nt); }
      mini_release(&MINI,NULL_KEY); tree*t=&T[NT]; mcheck(t); sums(t); full(t,MROOT,PAGE_TYPE_MEMTABLE,"memtable at rest"); }
   { int base[8]={6,20,14,10,10,6,5,8}; for(int i=0;i<8;i++) A.w[i]=RND(5)==0?0:RND(4)==0?base[i]*3:base[i]; if(!A.w[0]) A.w[0]=6; } A.nops=A.nops/(A.ml>300?4:3)+1;
   int rounds=1+RND(3); for(PH=0;PH<rounds;PH++){ if(RND(2)==0){ cache_flush(CC); if(RND(4)) cache_evict(CC,TRUE); } { rng_t q0=op_rng(77+PH); op_pack(&q0); } unit_clients(bclient,A.nt);
      for(int i=0;i<NH;i++) if(H[i].used){ UCHK(!H[i].users&&!H[i].zapping,"model"); if(H[i].lo==-1&&H[i].hi==NK&&RND(2)) full(&T[H[i].t],T[H[i].t].root,PAGE_TYPE_BRANCH,"tree at rest"); }
      if(RND(3)==0){ cache_flush(CC); cache_evict(CC,TRUE); unit_clients(lclient,A.nt); }
      if(mt_live&&RND(2)){ full(&T[NT],MROOT,PAGE_TYPE_MEMTABLE,"memtable later"); } sim_progress(); }
   for(int i=0;i<NH;i++) if(H[i].used) zap(&H[i]); for(int i=0;i<NT;i++) UCHK(!T[i].used,"a tree of %d entries, of which no range is held any more, was not given up",T[i].n);
   if(mt_live){ UCHK(btree_dec_ref(CC,&BC,MROOT,PAGE_TYPE_MEMTABLE),"the memtable tree was not freed"); }
   UCHK(allocator_in_use(AL)==use0,"%lld extents are still in use after all trees were given up",(long long)(allocator_in_use(AL)-use0));
   cache_flush(CC); uenv_down(&E,1); unit_leakcheck(); US->done=1; sim_progress(); }
static void run(void){ disk_reset(); sched_cfg sc; fault_cfg fc; unit_sched(0,&sc,&fc,1); rng_t r; rng_seed(&r,OPT.seed,0xfab); fc.enabled=1; fc.prob[F_MALLOC]=0.02+0.2*rng_chance(&r,0.3); fc.count_limit=1+rng_below(&r,60); sim_hang_limit=6000000; unit_session(main_,0,&sc,&fc); }
static harness H_btree={"btree",unit_init,run,COVN}; REGISTER_HARNESS(H_btree)
