// Turns a check into one of faults: see fault.h
#pragma once
#include "fault.h"
#include <unordered_set>
namespace bq {
struct FaultSetup {
  static int newPoint(uint64_t h) {
    if (mc::current && mc::current->replay) { static std::unordered_set<uint64_t> seen; return seen.insert(h).second; }
    return mc::current && mc::current->state(h);
  }
  static void failed(const char* m) { mc::current->fail("%s", m); }
  FaultSetup() {
    mc::configHook = [](mc::Config& c) {
      fault_init(); if (!fault_mode) return;
      bool stateful = c.property=="C14" || c.property=="C19"; // what is called keeps state: calls cannot be repeated on copies
      if (char* p = getenv("MC_PROP")) c.property = p;
      if (stateful && fault_mode!=FM_GC) fault_off = 1;
      if (stateful && fault_mode==FM_OWN) for (auto& s : c.sc) s.run = [f = s.run](Ex& ex) { // run it all three times: the heap must not go on growing
        f(ex); uint64_t u[3], c0 = cb_caught(); for (int k = 0; k < 3; k++) { if (k) { ex.pos = 0; f(ex); } cb_gctop(); u[k] = cb_heap_used(); }
        if (cb_caught()==c0) mc::shm->user[62]++; if (u[1]>u[0] && u[2]>u[1] && cb_caught()==c0) ex.fail("every time this is run %lu bytes are left that a garbage collection does not reclaim", (unsigned long)(u[2]-u[1]));
      };
      fault_new = newPoint; fault_fail = failed; fault_show = [](uint64_t f, int dy, uint64_t w, uint64_t x) { fprintf(stderr, "call (type %d) 𝕨 %s 𝕩 %s\n", cb_type(f), dy? (show(fromB(w))+strf(" type %d", cb_kind(w)==CK_ARR? cb_type(w) : -1)).c_str() : "-", (show(fromB(x))+strf(" type %d", cb_kind(x)==CK_ARR? cb_type(x) : -1)).c_str()); }; c.useStates = true;
      auto pr = c.perRun; c.perRun = [pr]() { if (pr) pr(); mc::shm->user[60] += fault_calls; mc::shm->user[61] += fault_allocs; mc::shm->user[62] += fault_points; fault_calls = fault_allocs = fault_points = 0; };
      c.extra = []() { static const char* nm[] = {"", "collections_at_new_points", "failures_injected", "reference_counts_checked"}; return strf("\"faulted_calls\": %lu,\n    \"allocations_seen\": %lu,\n    \"%s\": %lu", (unsigned long)mc::shm->user[60], (unsigned long)mc::shm->user[61], nm[fault_mode], (unsigned long)mc::shm->user[62]); };
      if (char* o = getenv("MC_SKIP")) { vector<mc::Scenario> k; for (auto& s : c.sc) if (!strstr(o, ("["+s.name+"]").c_str())) k.push_back(s); c.sc = k; }
    };
  }
};
static FaultSetup faultSetup;
}
