#ifndef POISON_H
#define POISON_H
struct allocator;
/* fills extents on the simulated device with garbage when their last reference goes away */
void poison_install(struct allocator*al);
i64 poison_type_net(int t); void poison_dump(struct allocator*,char*,size_t);
u64 poison_count(void); extern void (*poison_full)(void); /* the allocator had no room */
#endif
