#include "harness.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>

run_opts OPT; run_res RES; u8 RUN_SITES[1<<16];
harness *HARNESSES[64]; static int nharn; void harness_register(harness*h){ HARNESSES[nharn++]=h; }
static u8 ALLSITES[1<<16]; 
void *raw_malloc(size_t n){ return malloc(n); } void raw_free(void*p){ free(p); }
void *shared_alloc(size_t n){ void*p=mmap(0,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED){perror("mmap");exit(3);} return p; }
int op_skipped(u64 id){ for(int i=0;i<OPT.nskip;i++) if(id>=OPT.opskip_lo[i]&&id<=OPT.opskip_hi[i]) return 1; return 0; }
void run_fail(const char*cls,const char*fmt,...){ if(RES.failed) return; RES.failed=1; snprintf(RES.cls,sizeof RES.cls,"%s",cls); va_list ap; va_start(ap,fmt); vsnprintf(RES.msg,sizeof RES.msg,fmt,ap); va_end(ap); }

static sched_dec *rep_dec; static u32 rep_n; static int cur_epoch; static FILE*decout;
static double tmo=90;
int run_epoch(void(*fn)(void*),void*arg,u64 seed,const sched_cfg*sc,const fault_cfg*fc){
   u32 used=SH->ndec<SIM_MAXDEC?SH->ndec:SIM_MAXDEC; (void)used;
   memset(SH,0,offsetof(sim_shared,dec));
   int ep=cur_epoch++;
   fflush(NULL);
   pid_t pid=fork();
   if(pid<0){ perror("fork"); exit(3); }
   if(pid==0){
      struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
      fault_cfg f=*fc; if(OPT.nofaults) f.enabled=0; if(OPT.has_fault_limit&&f.count_limit>OPT.fault_limit) f.count_limit=OPT.fault_limit;
      sched_cfg s=*sc;
      sim_child_init(seed,&s,&f);
      if(OPT.dec_limit&&(OPT.dec_epoch<0||OPT.dec_epoch==ep)) sim_dec_limit=OPT.dec_limit;
      if(rep_dec&&(OPT.dec_epoch<0||OPT.dec_epoch==ep)){ sim_replay_dec=rep_dec; sim_replay_n=rep_n; }
      sim_spawn(fn,arg,1); sim_run();
      fflush(NULL); _exit(0);
   }
   int st; struct timespec t0; clock_gettime(CLOCK_MONOTONIC,&t0); int killed=0;
   for(;;){ /* poll with a watchdog */
      int r=waitpid(pid,&st,killed?0:WNOHANG); if(r==pid) break; if(r<0&&errno!=EINTR){perror("waitpid");exit(3);} 
      struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); double el=t.tv_sec-t0.tv_sec+(t.tv_nsec-t0.tv_nsec)*1e-9; if(el>tmo){ kill(pid,SIGKILL); killed=1; continue; }
      struct timespec z={0,el<0.02?100000:1000000}; nanosleep(&z,0); }
   int status=SH->status;
   if(killed){ status=SIM_TIMEOUT; }
   else if(WIFSIGNALED(st)){ status=SIM_INTERNAL; snprintf(SH->msg,sizeof SH->msg,"child killed by signal %d",WTERMSIG(st)); }
   else if(WEXITSTATUS(st)!=0&&status==0){ status=SIM_INTERNAL; snprintf(SH->msg,sizeof SH->msg,"child exit %d",WEXITSTATUS(st)); }
   SH->status=status;
   RES.steps+=SH->steps; RES.switches+=SH->switches; RES.simtime+=SH->simtime_ns; RES.hash=hash2(RES.hash,hash2(SH->hash,status)); RES.epochs++; RES.ndec+=SH->ndec;
   for(int i=0;i<F_NKINDS;i++){ RES.faults[i]+=SH->faults[i]; RES.opp[i]+=SH->opportunities[i]; }
   for(u32 i=0;i<SH->ntrace&&RES.ntrace<SIM_MAXTRACE;i++){ RES.trace[RES.ntrace]=SH->trace[i]; RES.trace[RES.ntrace++].seq|=(u32)ep<<24; }
   if(status!=SIM_OK&&SH->nbt){ memcpy(RES.bt,SH->bt,sizeof RES.bt); RES.nbt=SH->nbt; }
   RES.reads+=SH->io_reads+SH->io_areads; RES.writes+=SH->io_writes+SH->io_awrites;
   for(int i=0;i<(1<<16);i++) if(SH->sitemap[i]) RUN_SITES[i]=1;
   if(decout&&(OPT.dec_epoch<0||OPT.dec_epoch==ep)){ u32 n=SH->ndec<SIM_MAXDEC?SH->ndec:SIM_MAXDEC; if(OPT.dec_limit&&n>OPT.dec_limit) n=OPT.dec_limit; fprintf(decout,"epoch %d %u\n",ep,n); for(u32 i=0;i<n;i++) fprintf(decout,"%u:%u ",SH->dec[i].tid,SH->dec[i].quantum); fprintf(decout,"\n"); }
   if(OPT.verbose) fprintf(stderr,"  epoch %d: %s steps=%llu switches=%llu ndec=%u hash=%016llx%s%s\n",ep,sim_status_name[status],(unsigned long long)SH->steps,(unsigned long long)SH->switches,SH->ndec,(unsigned long long)SH->hash,SH->msg[0]?" msg=":"",SH->msg);
   return status;
}
static void jstr(FILE*f,const char*s){ fputc('"',f); for(;*s;s++){ unsigned char c=*s; if(c=='"'||c=='\\') fprintf(f,"\\%c",c); else if(c<32||c>126) fprintf(f,"\\u%04x",c); else fputc(c,f);} fputc('"',f); }
static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
int main(int argc,char**argv){
   if(!getenv("SIM_NOASLR")){ setenv("SIM_NOASLR","1",1); personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe",argv); }
   /* simbin HARNESS [key=value ...] : first=SEED n=COUNT time=SECONDS ... */
   if(argc<2){ fprintf(stderr,"usage: simbin harness key=val...\n"); return 3; }
   OPT.harness=argv[1]; OPT.profile="default"; OPT.dec_epoch=-1; u64 first=1,n=1,stride=1; double tlim=0; int stopfirst=1, cpu=-1; const char*decf=0,*repf=0; int sites=0;
   for(int i=2;i<argc;i++){ char*e=strchr(argv[i],'='); if(!e){ fprintf(stderr,"bad arg %s\n",argv[i]); return 3; } *e++=0; char*k=argv[i];
      if(!strcmp(k,"first")) first=strtoull(e,0,0); else if(!strcmp(k,"n")) n=strtoull(e,0,0); else if(!strcmp(k,"stride")) stride=strtoull(e,0,0); else if(!strcmp(k,"time")) tlim=atof(e); else if(!strcmp(k,"profile")) OPT.profile=e;
      else if(!strcmp(k,"skip")){ char*q=e; while(*q&&OPT.nskip<64){ OPT.opskip_lo[OPT.nskip]=strtoull(q,&q,0); OPT.opskip_hi[OPT.nskip]=OPT.opskip_lo[OPT.nskip]; if(*q=='-'){ q++; OPT.opskip_hi[OPT.nskip]=strtoull(q,&q,0);} OPT.nskip++; if(*q==',')q++; } }
      else if(!strcmp(k,"maxthreads")) OPT.max_threads=atoi(e); else if(!strcmp(k,"maxops")) OPT.max_ops=strtoull(e,0,0); else if(!strcmp(k,"declimit")) OPT.dec_limit=strtoul(e,0,0); else if(!strcmp(k,"decepoch")) OPT.dec_epoch=atoi(e);
      else if(!strcmp(k,"nofaults")) OPT.nofaults=atoi(e); else if(!strcmp(k,"faultlimit")){ OPT.fault_limit=strtoull(e,0,0); OPT.has_fault_limit=1; } else if(!strcmp(k,"verbose")) OPT.verbose=atoi(e); else if(!strcmp(k,"thorough")) OPT.thorough=atoi(e);
      else if(!strcmp(k,"keepgoing")) stopfirst=!atoi(e); else if(!strcmp(k,"cpu")) cpu=atoi(e); else if(!strcmp(k,"decout")) decf=e; else if(!strcmp(k,"decin")) repf=e; else if(!strcmp(k,"sites")) sites=atoi(e); else if(!strcmp(k,"timeout")) tmo=atof(e);
      else if(k[0]=='p'&&k[1]>='0'&&k[1]<='9'){ int x=atoi(k+1); OPT.p[x]=strtoll(e,0,0); OPT.has_p[x]=1; }
      else { fprintf(stderr,"unknown option %s\n",k); return 3; } }
   if(cpu>=0){ cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpu,&cs); sched_setaffinity(0,sizeof cs,&cs); }
   sim_global_init();
   harness*h=0; for(int i=0;HARNESSES[i];i++) if(!strcmp(HARNESSES[i]->name,OPT.harness)) h=HARNESSES[i];
   if(!h){ fprintf(stderr,"no harness %s\n",OPT.harness); return 3; }
   if(h->init) h->init();
   if(repf){ FILE*f=fopen(repf,"r"); if(!f){perror(repf);return 3;} int ep; u32 c; if(fscanf(f," epoch %d %u",&ep,&c)==2){ rep_dec=shared_alloc(sizeof(sched_dec)*(c+1)); rep_n=c; for(u32 i=0;i<c;i++){ unsigned a,b; if(fscanf(f," %u:%u",&a,&b)!=2){ fprintf(stderr,"bad schedule\n"); return 3;} rep_dec[i].tid=a; rep_dec[i].quantum=b; } } fclose(f); }
   double t0=now(); u64 done=0,nfail=0,nincon=0; static run_res TOT; u64 seed;
   for(u64 i=0;i<n;i++){ seed=first+i*stride; if(tlim>0&&now()-t0>tlim) break;
      memset(&RES,0,sizeof RES); memset(RUN_SITES,0,sizeof RUN_SITES); cur_epoch=0; OPT.seed=seed; disk_reset();
      if(decf){ decout=fopen(decf,"w"); }
      double r0=now();
      h->run();
      if(decout){ fclose(decout); decout=0; }
      done++; u64 pairs=0; for(int k=0;k<(1<<16);k++) if(RUN_SITES[k]){ ALLSITES[k]=1; pairs++; }
      TOT.steps+=RES.steps; TOT.switches+=RES.switches; TOT.simtime+=RES.simtime; TOT.epochs+=RES.epochs; TOT.ops+=RES.ops; TOT.checked+=RES.checked; TOT.reads+=RES.reads; TOT.writes+=RES.writes; TOT.ndec+=RES.ndec; for(int k=0;k<F_NKINDS;k++) {TOT.faults[k]+=RES.faults[k];TOT.opp[k]+=RES.opp[k];} for(int k=0;k<64;k++) TOT.cov[k]+=RES.cov[k];
      nincon+=RES.inconclusive;
      printf("{\"t\":\"run\",\"seed\":%llu,\"hash\":\"%016llx\",\"state\":\"%016llx\",\"steps\":%llu,\"ops\":%llu,\"sw\":%llu,\"incon\":%llu,\"secs\":%.3f}\n",(unsigned long long)seed,(unsigned long long)RES.hash,(unsigned long long)RES.statehash,(unsigned long long)RES.steps,(unsigned long long)RES.ops,(unsigned long long)RES.switches,(unsigned long long)RES.inconclusive,now()-r0);
      if(RES.failed){ nfail++; printf("{\"t\":\"fail\",\"seed\":%llu,\"cls\":\"%s\",\"hash\":\"%016llx\",\"epochs\":%llu,\"ndec\":%llu,\"msg\":",(unsigned long long)seed,RES.cls,(unsigned long long)RES.hash,(unsigned long long)RES.epochs,(unsigned long long)RES.ndec); jstr(stdout,RES.msg); printf(",\"faults\":["); for(u32 k=0;k<RES.ntrace&&k<200;k++) printf("%s{\"kind\":\"%s\",\"epoch\":%u,\"n\":%u,\"step\":%llu,\"info\":%llu}",k?",":"",fault_name[RES.trace[k].kind],RES.trace[k].seq>>24,RES.trace[k].seq&0xffffff,(unsigned long long)RES.trace[k].step,(unsigned long long)RES.trace[k].info); printf("],\"stack\":["); if(RES.nbt){ char cmd[1200]; int o=snprintf(cmd,sizeof cmd,"addr2line -s -f -e /proc/%d/exe",(int)getpid()); for(u32 k=0;k<RES.nbt&&o<1100;k++) o+=snprintf(cmd+o,sizeof cmd-o," %#llx",(unsigned long long)RES.bt[k]-1); snprintf(cmd+o,sizeof cmd-o," 2>/dev/null"); fflush(stdout); FILE*pp=popen(cmd,"r"); if(pp){ char a[300],b[300]; int c=0; while(fgets(a,300,pp)&&fgets(b,300,pp)){ a[strcspn(a,"\n")]=0; b[strcspn(b,"\n ")]=0; strncat(a,"@",299-strlen(a)); strncat(a,b,299-strlen(a)); if(c++) printf(","); jstr(stdout,a); } pclose(pp);} } printf("]}\n"); fflush(stdout); if(stopfirst) break; }
      fflush(stdout);
   }
   u64 pairs=0; for(int k=0;k<(1<<16);k++) pairs+=ALLSITES[k];
   printf("{\"t\":\"sum\",\"runs\":%llu,\"fails\":%llu,\"inconclusive\":%llu,\"steps\":%llu,\"switches\":%llu,\"simtime_ns\":%llu,\"epochs\":%llu,\"ops\":%llu,\"checked\":%llu,\"reads\":%llu,\"writes\":%llu,\"sitepairs\":%llu,\"wall\":%.2f,\"faults\":{",(unsigned long long)done,(unsigned long long)nfail,(unsigned long long)nincon,(unsigned long long)TOT.steps,(unsigned long long)TOT.switches,(unsigned long long)TOT.simtime,(unsigned long long)TOT.epochs,(unsigned long long)TOT.ops,(unsigned long long)TOT.checked,(unsigned long long)TOT.reads,(unsigned long long)TOT.writes,(unsigned long long)pairs,now()-t0);
   for(int k=0,c=0;k<F_NKINDS;k++) if(TOT.faults[k]) printf("%s\"%s\":%llu",c++?",":"",fault_name[k],(unsigned long long)TOT.faults[k]);
   printf("},\"cov\":{"); for(int k=0,c=0;h->covnames&&h->covnames[k];k++) printf("%s\"%s\":%llu",c++?",":"",h->covnames[k],(unsigned long long)TOT.cov[k]);
   printf("}"); if(sites) { printf(",\"sites\":\""); { static const char*hx="0123456789abcdef"; for(int k=0;k<(1<<16);k+=4) putchar(hx[ALLSITES[k]|ALLSITES[k+1]<<1|ALLSITES[k+2]<<2|ALLSITES[k+3]<<3]); } printf("\""); } printf("}\n");
   return nfail?1:0;
}
