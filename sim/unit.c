#include "unit.h"
ush *US; int unit_crash_ok;
static ucl UC[96];
void unit_init(void){ US=shared_alloc(sizeof *US); platform_set_log_streams(fopen("/dev/null","w"),sim_err_stream()); }
void unit_sched(int sess,sched_cfg*sc,fault_cfg*fc,int fine){ rng_t r; rng_seed(&r,hash2(OPT.seed,sess),0x5c4ed); sim_default_sched(sc,&r); sim_default_faults(fc);
   if(fine){ /* short critical sections: short slices and stalls that matter */ sc->qmin=rng_logu(&r,1,24); sc->qmax=sc->qmin*rng_logu(&r,1,64); if(sc->mode==SM_RR) sc->qmax=sc->qmin; sc->pct_mean=rng_logu(&r,50,5000); sc->stall_mean=rng_logu(&r,100,20000); sc->stall_max=rng_logu(&r,500,400000); } }
int unit_session(void(*fn)(void*),int sess,const sched_cfg*sc,const fault_cfg*fc){
   u64 ev=US->ev; memset(US,0,offsetof(ush,blob)); US->ev=ev; US->sess=sess;
   int st=run_epoch(fn,(void*)(i64)sess,hash2(OPT.seed,100+sess),sc,fc);
   for(int i=0;i<UCOV;i++) RES.cov[i]+=US->cov[i]; RES.ops+=US->ops; RES.checked+=US->checks; RES.statehash=hash2(RES.statehash,US->state);
   if(st==SIM_CRASHED&&unit_crash_ok) return 2;
   if(st!=SIM_OK){ if(st==SIM_STEPLIMIT||st==SIM_TIMEOUT){ RES.inconclusive++; return 0; } run_fail(sim_status_name[st],"session %d: %s: %s",sess,sim_status_name[st],SH->msg); return 0; }
   if(!US->done){ run_fail("internal","session %d did not finish",sess); return 0; }
   return 1; }
static void uc_main(void*a){ ucl*u=a; u->fn(u->t); }
void unit_clients(void(*fn)(int),int n){ if(OPT.max_threads&&n>OPT.max_threads) n=OPT.max_threads; for(int i=0;i<n;i++){ UC[i].fn=fn; UC[i].t=i; UC[i].id=sim_spawn(uc_main,&UC[i],1); } for(int i=0;i<n;i++) sim_wait_fiber(UC[i].id); }
void uenv_up(uenv*e,u64 disk,u64 cache,int nmt,int nnorm,u64 qdepth,int stats,int mount,u64 scratch){
   memset(e,0,sizeof *e); platform_status rc;
   rc=platform_heap_create(platform_get_module_id(),16<<20,FALSE,&e->hid); UCHK(SUCCESS(rc),"heap creation failed");
   io_config_init(&e->iocfg,4096,131072,O_RDWR|O_CREAT,0644,qdepth,"simdisk");
   rc=io_handle_init(&e->io,&e->iocfg,e->hid); UCHK(SUCCESS(rc),"io_handle_init failed");
   uint64 nbg[NUM_TASK_TYPES]={0}; nbg[TASK_TYPE_MEMTABLE]=nmt; nbg[TASK_TYPE_NORMAL]=nnorm;
   rc=task_system_config_init(&e->tscfg,stats,nbg,scratch); UCHK(SUCCESS(rc),"task configuration failed");
   rc=task_system_create(e->hid,&e->io,&e->ts,&e->tscfg); UCHK(SUCCESS(rc),"task_system_create failed");
   allocator_config_init(&e->alcfg,&e->iocfg,disk);
   rc=mount?rc_allocator_mount(&e->al,&e->alcfg,(io_handle*)&e->io,e->hid,platform_get_module_id()):rc_allocator_init(&e->al,&e->alcfg,(io_handle*)&e->io,e->hid,platform_get_module_id()); UCHK(SUCCESS(rc),"allocator start failed");
   if(cache){ clockcache_config_init(&e->cccfg,&e->iocfg,cache,"",stats); rc=clockcache_init(&e->cc,&e->cccfg,(io_handle*)&e->io,(allocator*)&e->al,"unit",e->hid,platform_get_module_id()); UCHK(SUCCESS(rc),"cache start failed"); e->have_cache=1; } }
void uenv_down(uenv*e,int keep){
   if(e->have_cache){ clockcache_deinit(&e->cc); }
   if(keep) rc_allocator_unmount(&e->al); else rc_allocator_deinit(&e->al);
   task_system_destroy(e->hid,&e->ts); io_handle_deinit(&e->io); platform_heap_destroy(&e->hid); }
void unit_leakcheck(void){
   if(sim_fds_open||sim_aio_ctx_open||sim_threads_live) sim_fail(SIM_USER,"at the end: %d file descriptors, %d aio contexts, %d threads still held",sim_fds_open,sim_aio_ctx_open,sim_threads_live);
   if(sim_mmaps_open||sim_shm_open) sim_fail(SIM_USER,"at the end: %d mappings, %d shared segments still held",sim_mmaps_open,sim_shm_open);
   char b[600]; if(sim_heap_leaks(b,sizeof b)) sim_fail(SIM_USER,"at the end: memory still held: %s",b); }
