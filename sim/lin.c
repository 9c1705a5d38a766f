#include "lin.h"
#include "harness.h"
#include <string.h>
#include <stdlib.h>
u64 kst_seed(u64 key){ return hash2(key,0x5eed); }
int key_volatile(u64 key){ return (mix64(key^0x701a71e)&7)==0; }
kstate kst_insert(u64 id){ kstate s={1,0,hash2(id,0x1115e47)}; return s; }
void upd_coeff(u64 id,u64*a,u64*b){ *a=hash2(id,0xA)|1; *b=hash2(id,0xB); }
kstate kst_update(kstate s,u64 id,u64 key){ u64 a,b; upd_coeff(id,&a,&b); if(!s.present){ if(key_volatile(key)) return s; s.present=1; s.cnt=0; s.h=kst_seed(key); } s.h=s.h*a+b; s.cnt++; return s; }
static int eq(kstate a,kstate b){ return a.present==b.present&&(!a.present||(a.h==b.h&&a.cnt==b.cnt)); }
typedef struct { kstate s; u64 w; u64 r[4]; } conf; /* w: linearized pending writes; r: satisfied pending reads (slot bitmaps) */
#define MAXC 6000
static conf *A,*B; static int na,nb;
static hop *ws[64]; static hop *rs[256];
static void sat(conf*c){ for(int i=0;i<256;i++) if(rs[i]&&!(c->r[i>>6]>>(i&63)&1)&&eq(c->s,rs[i]->r)) c->r[i>>6]|=1ull<<(i&63); }
static int addc(conf*L,int*n,conf c){ for(int i=0;i<*n;i++) if(L[i].w==c.w&&eq(L[i].s,c.s)){ /* merge: keep if dominated */ int sub=1,sup=1; for(int k=0;k<4;k++){ if(c.r[k]&~L[i].r[k]) sub=0; if(L[i].r[k]&~c.r[k]) sup=0; } if(sub) return 0; if(sup){ L[i]=c; return 1; } } if(*n>=MAXC) return -1; L[(*n)++]=c; return 1; }
static void show(char*b,size_t n,kstate s){ if(s.present) snprintf(b,n,"h=%016llx/%u",(unsigned long long)s.h,s.cnt); else snprintf(b,n,"absent"); }
int lin_check(hop**ops,int n,kset*set,u64 key,char*msg,size_t mn,u64*evals){
   if(!A){ A=raw_malloc(sizeof(conf)*(MAXC+1)); B=raw_malloc(sizeof(conf)*(MAXC+1)); }
   memset(ws,0,sizeof ws); memset(rs,0,sizeof rs); na=0;
   for(int i=0;i<set->n;i++){ conf c; memset(&c,0,sizeof c); c.s=set->s[i]; addc(A,&na,c); }
   /* event list: merge of invocations (sorted) and responses (sort by resp) */
   hop**byr=raw_malloc(sizeof(hop*)*(n+1)); int nr=0; for(int i=0;i<n;i++) if(ops[i]->done) byr[nr++]=ops[i];
   for(int i=1;i<nr;i++){ hop*x=byr[i]; int j=i; while(j>0&&byr[j-1]->resp>x->resp){ byr[j]=byr[j-1]; j--; } byr[j]=x; }
   int i=0,j=0,ret=1;
   while(i<n||j<nr){
      if(i<n&&(j>=nr||ops[i]->inv<byr[j]->resp)){ hop*o=ops[i++];
         if(o->type==OP_READ){ if(!o->done) continue; int s; for(s=0;s<256&&rs[s];s++); if(s==256){ ret=-1; break; } rs[s]=o; for(int k=0;k<na;k++){ A[k].r[s>>6]&=~(1ull<<(s&63)); sat(&A[k]); } }
         else { int s; for(s=0;s<64&&ws[s];s++); if(s==64){ ret=-1; break; } ws[s]=o; for(int k=0;k<na;k++) A[k].w&=~(1ull<<s); }
         continue; }
      hop*o=byr[j++]; (*evals)++; int isr=o->type==OP_READ, slot=-1; for(int s=0;s<(isr?256:64);s++) if((isr?rs[s]:ws[s])==o) slot=s;
      /* closure: linearize pending writes until o is in */
      int over=0; 
      for(int k=0;k<na&&!over;k++){ conf c=A[k]; if(isr?(c.r[slot>>6]>>(slot&63)&1):(c.w>>slot&1)) continue; 
         for(int s=0;s<64;s++) if(ws[s]&&!(c.w>>s&1)){ conf d=c; d.w|=1ull<<s; hop*w=ws[s]; if(w->type==OP_INSERT) d.s=kst_insert(w->id); else if(w->type==OP_DELETE){ d.s.present=0; d.s.h=0; d.s.cnt=0; } else d.s=kst_update(d.s,w->id,key); sat(&d); if(addc(A,&na,d)<0){ over=1; break; } } }
      if(over){ ret=-1; break; }
      nb=0; for(int k=0;k<na;k++){ conf c=A[k]; if(!(isr?(c.r[slot>>6]>>(slot&63)&1):(c.w>>slot&1))) continue; if(isr) c.r[slot>>6]&=~(1ull<<(slot&63)); else c.w&=~(1ull<<slot); addc(B,&nb,c); }
      if(nb==0){ ret=0; char b[64],e[400]=""; size_t eo=0; show(b,sizeof b,o->r); for(int k=0;k<na&&k<6;k++){ char x[64]; show(x,sizeof x,A[k].s); eo+=snprintf(e+eo,sizeof e-eo," {%s w=%llx}",x,(unsigned long long)A[k].w); }
         static const char*sn[]={"lookup","scan","final-lookup","async-lookup","final-scan"};
         int off=snprintf(msg,mn,"key #%llu: %s by thread %u over [%llu,%llu] returned %s; possible states:%s; recent ops:",(unsigned long long)key,o->type==OP_READ?sn[o->src]:"write",o->tid,(unsigned long long)o->inv,(unsigned long long)o->resp,b,e);
         for(int k=i-1,c=0;k>=0&&c<8&&off<(int)mn-100;k--) if(ops[k]->type!=OP_READ){ c++; kstate z=ops[k]->type==OP_INSERT?kst_insert(ops[k]->id):(kstate){0,0,0}; off+=snprintf(msg+off,mn-off," %s#%llu t%u[%llu,%llu]%llx",ops[k]->type==OP_INSERT?"ins":ops[k]->type==OP_DELETE?"del":"upd",(unsigned long long)ops[k]->id,ops[k]->tid,(unsigned long long)ops[k]->inv,(unsigned long long)(ops[k]->done?ops[k]->resp:0),(unsigned long long)z.h); }
         break; }
      if(isr) rs[slot]=0; else ws[slot]=0;
      conf*t=A; A=B; B=t; na=nb;
   }
   raw_free(byr);
   if(ret==1){ /* final states, including any subset of never-answered writes */
      kset out; out.n=0; int over=0;
      for(int k=0;k<na;k++){ conf c=A[k]; int dup=0; for(int s=0;s<64;s++) if(ws[s]&&!(c.w>>s&1)){ conf d=c; d.w|=1ull<<s; hop*w=ws[s]; if(w->type==OP_INSERT) d.s=kst_insert(w->id); else if(w->type==OP_DELETE){ d.s.present=0; d.s.h=0;d.s.cnt=0; } else d.s=kst_update(d.s,w->id,key); if(addc(A,&na,d)<0) over=1; }
         for(int q=0;q<out.n;q++) if(eq(out.s[q],c.s)) dup=1; if(!dup){ if(out.n<MAXST) out.s[out.n++]=c.s; else over=1; } }
      if(over) return -1; *set=out; }
   return ret;
}
