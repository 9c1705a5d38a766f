#include "platform.h"
#include "allocator.h"
#include "harness.h"
#include "poison.h"
#include <string.h>
#include <stdio.h>
static const allocator_ops *real; static allocator_ops mine; static u64 cnt; static i64 net[16]; static u8 otype[DISK_MAX/131072];
i64 poison_type_net(int t){ return net[t]; }

void (*poison_full)(void);
static uint8 p_dec(allocator*al,uint64 addr,page_type t){
   if(OPT.verbose>2) fprintf(stderr,"[%llu f%d] dec_ref ext %llu type %d was %d\n",(unsigned long long)sim_step(),sim_self(),(unsigned long long)addr/131072,t,real->get_ref(al,addr));
   if(real->get_ref(al,addr)==AL_NO_REFS){ allocator_config*c=real->get_config(al); u64 n=c->io_cfg->extent_size; u64 base=addr-addr%n; if(base+n<=DISK_MAX&&base+n<=DH->hiwater) for(u64 i=0;i<n;i+=8) *(u64*)(DISK+base+i)=0xF4EEDF4EEDF4EED5ull^(base+i); cnt++; net[t&15]--; otype[base/131072]=0; }
   return real->dec_ref(al,addr,t); }
static platform_status p_alloc(allocator*al,uint64*addr,page_type t){ platform_status r=real->alloc(al,addr,t); if(SUCCESS(r)){ net[t&15]++; otype[*addr/131072]=1+t; } else if(poison_full) poison_full(); if(OPT.verbose>2) fprintf(stderr,"[%llu f%d] alloc ext %llu type %d\n",(unsigned long long)sim_step(),sim_self(),(unsigned long long)*addr/131072,t); return r; }
static uint8 p_inc(allocator*al,uint64 addr){ if(OPT.verbose>2) fprintf(stderr,"[%llu f%d] inc ext %llu\n",(unsigned long long)sim_step(),sim_self(),(unsigned long long)addr/131072); return real->inc_ref(al,addr); }
void poison_install(struct allocator*al){ real=al->ops; mine=*real; mine.dec_ref=p_dec; mine.alloc=p_alloc; mine.inc_ref=p_inc; al->ops=&mine; cnt=0; memset(net,0,sizeof net); memset(otype,0,sizeof otype); }
void poison_dump(struct allocator*al,char*b,size_t n){ size_t o=0; int c[17]={0}; u64 ext=al->ops->get_capacity(al)/131072; for(u64 i=0;i<ext&&i<DISK_MAX/131072;i++) if(real->get_ref(al,i*131072)!=AL_FREE){ c[otype[i]?otype[i]-1:16]++; if(otype[i]&&o<n-80) o+=snprintf(b+o,n-o,"%llu(%s, %d references) ",(unsigned long long)i,page_type_str[otype[i]-1],real->get_ref(al,i*131072)-AL_NO_REFS); } }
u64 poison_count(void){ return cnt; }
