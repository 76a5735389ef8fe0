// Faults at allocations, in builds where every allocation calls the hook below (see variant "hook" in build.py):
//   gc   a collection runs at every allocation whose call path (and arguments' types) has not had one yet
//   oom  before each call, copies of its arguments are used to run it with the allocation failing, for every such path
//   own  each call is made on copies of its arguments first; afterwards the heap must be exactly as large as before
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { FM_NONE, FM_GC, FM_OOM, FM_OWN };
extern int fault_mode;
extern int (*fault_new)(uint64_t hash);      // whether this point is to be explored
extern void (*fault_fail)(const char* msg);  // does not return
extern void (*fault_show)(uint64_t f, int dy, uint64_t w, uint64_t x); // for debugging
extern uint64_t fault_points, fault_allocs, fault_calls;
extern int fault_off; // while >0: no faults
void fault_init(void);
#ifdef __cplusplus
}
#endif
