// Simulated block device + libaio. Contents live in MAP_SHARED memory so that
// they survive the "process" (forked child) that is crashed or closed.
#include "simint.h"
#include <errno.h>
#include <fcntl.h>
#include <libaio.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

u8 *DISK; disk_hdr *DH; wlog_rec *WLOG; u8 *WLOGDATA;
#define MAXREQ 1024
#define MAXCH 40
typedef struct { u8*buf; u64 off; u32 len; u64 t; int done; u64 iss; } chunk;
typedef struct { int used, isw, nch, failed; struct iocb*cb; u64 ctx; u64 t_done; long res; u64 seq; u64 limit; chunk ch[MAXCH]; } req;
static req R[MAXREQ]; static int nreq; static u64 next_due; static u64 rseq; static int npending;
#define MAXCTX 80
static struct { int used; int depth; int inflight; } C[MAXCTX];
typedef struct { struct iocb*cb; long res; u64 ctx; } cev; 
static cev CQ[MAXREQ*2]; static int ncq;
static u64 write_events;
static struct { int used; int flags; } FD[64];

void disk_global_init(void){
   DISK=mmap(0,DISK_MAX,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
   DH=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
   WLOG=mmap(0,sizeof(wlog_rec)*WLOG_MAX,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
   WLOGDATA=mmap(0,WLOG_BYTES,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
   if(DISK==MAP_FAILED||DH==MAP_FAILED||WLOG==MAP_FAILED||WLOGDATA==MAP_FAILED){ perror("mmap disk"); exit(3);} }
void disk_reset(void){ if(DH->hiwater) madvise(DISK,(DH->hiwater+4095)&~4095ull,MADV_REMOVE); if(DH->journal_bytes) madvise(WLOGDATA,(DH->journal_bytes+4095)&~4095ull,MADV_REMOVE); memset(DH,0,sizeof *DH); }
void disk_child_init(void){ memset(R,0,sizeof(R[0])*nreq); nreq=0; next_due=0; npending=0; memset(C,0,sizeof C); ncq=0; write_events=0; memset(FD,0,sizeof FD); }
u64 disk_write_events(void){ return write_events; }
u64 disk_pending(void){ return npending; }

static void journal(u64 off,u32 len,const u8*d,u64 iss,int sync){
   if(!DH->journal_on) return; if(DH->njournal>=WLOG_MAX||DH->journal_bytes+len>WLOG_BYTES){ DH->journal_on=0; return; }
   wlog_rec*w=&WLOG[DH->njournal++]; w->off=off; w->len=len; w->t_issue=iss; w->t_done=DH->next_seq++; w->data=DH->journal_bytes; w->sync=sync; memcpy(WLOGDATA+DH->journal_bytes,d,len); DH->journal_bytes+=len; }
static void dwrite(u64 off,const u8*b,u64 n){ if(off+n>DISK_MAX) sim_fail(SIM_INTERNAL,"write beyond the simulated device: offset %llu",(unsigned long long)off); memcpy(DISK+off,b,n); if(off+n>DH->size) DH->size=off+n; if(off+n>DH->hiwater) DH->hiwater=off+n; }
static int crash_due(void){ return sim_crash_write>=0 && (i64)write_events==sim_crash_write; }

static void xfer(req*r,chunk*c){
   c->done=1;
   if(r->isw){
      if(!r->failed||c->off<r->limit){ u64 n=c->len; if(r->failed&&c->off+n>r->limit) n=r->limit-c->off;
         if(crash_due()){ if(rng_below(&sim_r_io,2)){ u64 k=rng_below(&sim_r_io,n/512+1)*512; if(k>n)k=n; dwrite(c->off,c->buf,k); fault_note(F_TORN,c->off); } sim_crash_now(); }
         write_events++; dwrite(c->off,c->buf,n); journal(c->off,n,c->buf,c->iss,0); }
   } else { u64 n=c->len; if(c->off>=DH->size) n=0; else if(c->off+n>DH->size) n=DH->size-c->off; if(r->failed){ if(c->off>=r->limit) n=0; else if(c->off+n>r->limit) n=r->limit-c->off; } if(n) memcpy(c->buf,DISK+c->off,n); }
   sim_hash_mix(c->off^((u64)r->isw<<63));
}
void disk_poll(void){
   if(!npending||now_ns<next_due) return;
   u64 nd=~0ull; 
   for(;;){ /* process in time order */
      req*br=0; chunk*bc=0; u64 bt=~0ull;
      for(int i=0;i<nreq;i++) if(R[i].used){ req*r=&R[i]; int all=1; for(int k=0;k<r->nch;k++) if(!r->ch[k].done){ all=0; if(r->ch[k].t<bt){ bt=r->ch[k].t; br=r; bc=&r->ch[k]; } } if(all&&r->t_done<bt){ bt=r->t_done; br=r; bc=0; } }
      if(!br) break; if(bt>now_ns){ nd=bt; break; }
      if(bc){ xfer(br,bc); continue; }
      for(int i=0;i<nreq;i++) if(R[i].used&&R[i].seq<br->seq){ SH->faults[F_IO_REORDER]++; break; }
      CQ[ncq].cb=br->cb; CQ[ncq].res=br->res; CQ[ncq].ctx=br->ctx; ncq++; sim_hash_mix(br->seq); br->used=0; npending--;
   }
   next_due=nd==~0ull?0:nd;
}
/* fair mode: what is in flight arrives soon */
void disk_hasten(void){ if(!npending) return; for(int i=0;i<nreq;i++) if(R[i].used){ u64 t=now_ns+50; if(R[i].t_done>t) R[i].t_done=t; for(int k=0;k<R[i].nch;k++) if(!R[i].ch[k].done&&R[i].ch[k].t>t) R[i].ch[k].t=t; } if(next_due>now_ns+50) next_due=now_ns+50; }
u64 disk_next_due(void){ return npending?next_due:0; }
void disk_crash(void){ /* in-flight writes: whole, torn or lost */
   for(int i=0;i<nreq;i++) if(R[i].used&&R[i].isw) for(int k=0;k<R[i].nch;k++){ chunk*c=&R[i].ch[k]; if(c->done) continue; int w=rng_below(&sim_r_io,4); if(w<2) fault_note(F_LOST,c->off); else if(w==2) dwrite(c->off,c->buf,c->len); else { dwrite(c->off,c->buf,rng_below(&sim_r_io,c->len/512+1)*512); fault_note(F_TORN,c->off);} } }

/* ---- libaio ---- */
int sim_io_setup(int n,io_context_t*c){ sim_sched_point(); if(*c) return -EINVAL; if(fault_roll(F_IO_SETUP,n)) return -EAGAIN; for(int i=1;i<MAXCTX;i++) if(!C[i].used){ C[i].used=1;C[i].depth=n;C[i].inflight=0; *c=(io_context_t)(u64)i; sim_aio_ctx_open++; return 0; } return -EAGAIN; }
int sim_io_destroy(io_context_t c){ u64 i=(u64)c; sim_sched_point(); if(i<1||i>=MAXCTX||!C[i].used) return -EINVAL; 
   /* waits for (cannot cancel) everything in flight */
   for(int k=0;k<1000000&&C[i].inflight;k++){ int any=0; for(int j=0;j<nreq;j++) if(R[j].used&&R[j].ctx==i) any=1; if(!any) break; sim_spin_yield(); }
   int w=0; for(int k=0;k<ncq;k++) if(CQ[k].ctx!=i) CQ[w++]=CQ[k]; ncq=w; C[i].used=0; sim_aio_ctx_open--; return 0; }
int sim_io_submit(io_context_t c,long nr,struct iocb**ios){
   u64 ci=(u64)c; sim_sched_point(); if(ci<1||ci>=MAXCTX||!C[ci].used) return -EINVAL;
   long n=0; for(;n<nr;n++){ struct iocb*cb=ios[n];
      if(C[ci].inflight>=C[ci].depth) break;
      if(fault_roll(F_SUBMIT_EAGAIN,0)) break;
      int isw; const struct iovec*iv; struct iovec one; int cnt; u64 off;
      switch(cb->aio_lio_opcode){ case IO_CMD_PREADV: case IO_CMD_PWRITEV: isw=cb->aio_lio_opcode==IO_CMD_PWRITEV; iv=(const struct iovec*)cb->u.v.vec; cnt=cb->u.v.nr; off=cb->u.v.offset; break;
       case IO_CMD_PREAD: case IO_CMD_PWRITE: isw=cb->aio_lio_opcode==IO_CMD_PWRITE; one.iov_base=cb->u.c.buf; one.iov_len=cb->u.c.nbytes; iv=&one; cnt=1; off=cb->u.c.offset; break; default: return n?n:-EINVAL; }
      int fd=cb->aio_fildes-1000; if(fd<0||fd>=64||!FD[fd].used) return n?n:-EBADF;
      if(FD[fd].flags&O_DIRECT){ if(off&511) return n?n:-EINVAL; for(int i=0;i<cnt;i++) if(((u64)iv[i].iov_base|iv[i].iov_len)&511) return n?n:-EINVAL; }
      int ri=-1; for(int i=0;i<nreq;i++) if(!R[i].used){ ri=i; break; } if(ri<0){ if(nreq>=MAXREQ) break; ri=nreq++; }
      req*r=&R[ri]; memset(r,0,offsetof(req,ch)); r->used=1; r->isw=isw; r->cb=cb; r->ctx=ci; r->seq=++rseq; if(cnt>MAXCH) sim_fail(SIM_INTERNAL,"iovec too long");
      if(isw) SH->io_awrites++; else SH->io_areads++;
      sched_cfg*s=&sim_sched; u64 lat=rng_range(&sim_r_io,s->io_lat_min,s->io_lat_max); u64 t=sim_now()+lat; 
      if(rng_chance(&sim_r_io,sim_is_fair()?0:s->io_stall_prob)){ t+=s->io_lat_max*rng_range(&sim_r_io,10,200); SH->faults[F_IO_STALL]++; }
      if(sim_is_fair()) t=sim_now()+50;
      u64 tot=0,o=off; r->t_done=t; r->nch=cnt;
      for(int k=0;k<cnt;k++){ chunk*ch=&r->ch[k]; ch->buf=iv[k].iov_base; ch->len=iv[k].iov_len; ch->off=o; o+=ch->len; tot+=ch->len; ch->done=0; ch->t=sim_now()+1+rng_below(&sim_r_io,t-sim_now()); if(ch->t>t) ch->t=t; ch->iss=DH->journal_on?DH->next_seq:0; if(DH->journal_on&&isw) DH->next_seq++; }
      r->res=tot;
      if(!isw){ if(off>=DH->size) r->res=0; else if(off+tot>DH->size) r->res=DH->size-off; }
      if(fault_roll(isw?F_AWRITE_EIO:F_AREAD_EIO,off)){ r->failed=1; r->res=-EIO; r->limit=off+rng_below(&sim_r_io,tot/512+1)*512*(rng_below(&sim_r_io,2)); if(r->limit<off) r->limit=off; }
      else if(fault_roll(isw?F_AWRITE_SHORT:F_AREAD_SHORT,off)){ r->failed=1; u64 k=rng_below(&sim_r_io,tot/512)*512; r->res=k; r->limit=off+k; }
      C[ci].inflight++; npending++; u64 m=t; for(int k=0;k<cnt;k++) if(r->ch[k].t<m) m=r->ch[k].t; if(npending==1||m<next_due) next_due=m;
      sim_hash_mix(off^0x10);
   }
   sim_sched_point(); if(n==0&&nr>0) return -EAGAIN; return n; }
int sim_io_getevents(io_context_t c,long min,long nr,struct io_event*ev,struct timespec*ts){
   u64 ci=(u64)c; (void)ts; sim_sched_point(); if(ci<1||ci>=MAXCTX||!C[ci].used) return -EINVAL;
   if(fault_roll(F_GETEVENTS_EINTR,0)) return -EINTR;
   for(;;){ disk_poll(); long n=0; int w=0; 
      for(int k=0;k<ncq;k++){ if(CQ[k].ctx==ci&&n<nr){ memset(&ev[n],0,sizeof ev[n]); ev[n].obj=CQ[k].cb; ev[n].data=CQ[k].cb->data; ev[n].res=CQ[k].res; ev[n].res2=0; n++; C[ci].inflight--; } else CQ[w++]=CQ[k]; } ncq=w;
      if(n>0){ sim_hash_mix(0xE0+n); return n; }
      sim_spin_yield(); if(min<=0) return 0; } }
int sim_io_cancel(io_context_t c,struct iocb*i,struct io_event*e){ (void)c;(void)i;(void)e; return -EAGAIN; }

/* ---- files ---- */
static int do_open(const char*p,int flags){ sim_sched_point(); if(!strcmp(p,"/dev/null")) return open(p,flags); if(fault_roll(F_OPEN,flags)){ errno=EACCES; return -1; } if(!DH->exists){ if(!(flags&O_CREAT)){ errno=ENOENT; return -1; } DH->exists=1; DH->size=0; } else if((flags&O_CREAT)&&(flags&O_EXCL)){ errno=EEXIST; return -1; } if(flags&O_TRUNC){ DH->size=0; memset(DISK,0,DH->hiwater); }
   for(int i=0;i<64;i++) if(!FD[i].used){ FD[i].used=1; FD[i].flags=flags; sim_fds_open++; return 1000+i; } errno=EMFILE; return -1; }
int sim_open(const char*p,int flags,...){ return do_open(p,flags); }
int sim_open_2(const char*p,int flags){ return do_open(p,flags); }
int sim_openat(int d,const char*p,int flags,...){ (void)d; return do_open(p,flags); }
static int okfd(int fd){ if(fd<1000||fd>=1064||!FD[fd-1000].used){ errno=EBADF; return 0; } return 1; }
int sim_close(int fd){ sim_sched_point(); if(fd<1000) return close(fd); if(!okfd(fd)) return -1; FD[fd-1000].used=0; sim_fds_open--; return 0; }
int sim_fstat(int fd,struct stat*st){ sim_sched_point(); if(!okfd(fd)) return -1; if(fault_roll(F_FSTAT,0)){ errno=EIO; return -1; } memset(st,0,sizeof *st); st->st_mode=S_IFREG|0644; st->st_size=DH->size; st->st_blksize=4096; return 0; }
int sim_fxstat(int v,int fd,struct stat*st){ (void)v; return sim_fstat(fd,st); }
int sim_fallocate(int fd,int mode,off_t off,off_t len){ (void)mode; sim_sched_point(); if(!okfd(fd)) return -1; if(fault_roll(F_FALLOCATE,len)){ errno=ENOSPC; return -1; } if((u64)(off+len)>DH->size) DH->size=off+len; if(DH->size>DH->hiwater) DH->hiwater=DH->size; return 0; }
int sim_posix_fallocate(int fd,off_t off,off_t len){ return sim_fallocate(fd,0,off,len)?errno:0; }
int sim_ftruncate(int fd,off_t len){ if(!okfd(fd)) return -1; if((u64)len<DH->size) memset(DISK+len,0,DH->size-len); DH->size=len; if(DH->size>DH->hiwater) DH->hiwater=DH->size; return 0; }
int sim_fsync(int fd){ sim_sched_point(); return okfd(fd)?0:-1; }
/* direct I/O wants memory, length and position aligned to sectors */
static int misaligned(int fd,const void*b,size_t n,off_t off){ if((FD[fd-1000].flags&O_DIRECT)&&(((u64)b|n|(u64)off)&511)){ errno=EINVAL; return 1; } return 0; }
ssize_t sim_pread(int fd,void*b,size_t n,off_t off){ sim_sched_point(); if(!okfd(fd)||misaligned(fd,b,n,off)) return -1; SH->io_reads++; if(fault_roll(F_READ_EIO,off)){ errno=EIO; return -1; } if((u64)off>=DH->size){ if(getenv("SIMDBG")) fprintf(stderr,"pread beyond the end: off %llu\n",(unsigned long long)off); return 0; } if(off+n>DH->size) n=DH->size-off; if(n>512&&fault_roll(F_READ_SHORT,off)) n=rng_below(&sim_r_io,n/512)*512; memcpy(b,DISK+off,n); sim_hash_mix(off^0x21); sim_sched_point(); return n; }
ssize_t sim_pwrite(int fd,const void*b,size_t n,off_t off){ sim_sched_point(); if(!okfd(fd)||misaligned(fd,b,n,off)) return -1; SH->io_writes++;
   if(fault_roll(F_WRITE_EIO,off)){ errno=EIO; return -1; } if(n>512&&fault_roll(F_WRITE_SHORT,off)) n=rng_below(&sim_r_io,n/512)*512;
   sim_hash_mix(off^0x22);
   /* applied page by page: a crash may fall between the pieces */
   u64 iss=DH->journal_on?DH->next_seq++:0;
   for(u64 o=0;o<n;){ u64 k=n-o>4096?4096:n-o; if(crash_due()){ if(rng_below(&sim_r_io,2)){ dwrite(off+o,(const u8*)b+o,rng_below(&sim_r_io,k/512+1)*512); fault_note(F_TORN,off+o);} sim_crash_now(); } write_events++; dwrite(off+o,(const u8*)b+o,k); journal(off+o,k,(const u8*)b+o,iss,1); o+=k; }
   sim_sched_point(); return n; }
static ssize_t rwv(int fd,const struct iovec*iv,int c,off_t off,int w){ ssize_t t=0; for(int i=0;i<c;i++){ ssize_t r=w?sim_pwrite(fd,iv[i].iov_base,iv[i].iov_len,off+t):sim_pread(fd,iv[i].iov_base,iv[i].iov_len,off+t); if(r<0) return t?t:-1; t+=r; if((size_t)r<iv[i].iov_len) break; } return t; }
ssize_t sim_preadv(int fd,const struct iovec*iv,int c,off_t off){ return rwv(fd,iv,c,off,0); }
ssize_t sim_pwritev(int fd,const struct iovec*iv,int c,off_t off){ return rwv(fd,iv,c,off,1); }
int sim_unlink(const char*p){ (void)p; if(!DH->exists){ errno=ENOENT; return -1; } DH->exists=0; if(DH->hiwater) madvise(DISK,(DH->hiwater+4095)&~4095ull,MADV_REMOVE); DH->size=0; return 0; }
