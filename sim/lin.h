#ifndef LIN_H
#define LIN_H
#include "simrt.h"
/* per-key linearizability of a register with insert/delete/update/read */
enum { OP_INSERT, OP_DELETE, OP_UPDATE, OP_READ };
typedef struct { u8 present; u32 cnt; u64 h; } kstate;
typedef struct { u32 key; u8 type, tid, src, done; u64 inv, resp; u64 id; kstate r; } hop; /* src: 0 lookup 1 scan 2 final 3 async; done=0: no response */
#define MAXST 6
typedef struct { u8 n; kstate s[MAXST]; } kset;
kstate kst_insert(u64 id);
kstate kst_update(kstate s,u64 id,u64 key);
void upd_coeff(u64 id,u64*a,u64*b);
u64 kst_seed(u64 key);
int key_volatile(u64 key);   /* update of an absent key leaves it absent */
/* ops[] sorted by inv. returns 1 ok, 0 violation, -1 gave up. On ok *set is replaced by the possible final states */
int lin_check(hop **ops,int n,kset *set,u64 key,char *msg,size_t msgn,u64 *evals);
#endif
