// Stateless exhaustive exploration: a scenario is a function that asks ex.pick(n) for every choice it makes; the
// explorer runs it once for every possible sequence of answers (depth-first), in parallel worker processes forked after
// the implementation was initialised. Every failure is replayed in a fresh process before it is reported.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {
using std::string; using std::vector;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
inline string strf(const char* f, ...) { va_list a; va_start(a,f); char* p; if (vasprintf(&p,f,a)<0) abort(); va_end(a); string r=p; free(p); return r; }

struct Failure { string sig, msg; };
struct Skip {};

static const int MAXW = 64, MAXSC = 64, MAXC = 512, MAXCLAIM = 1<<16;
struct Worker {
  std::atomic<uint64_t> tick;
  std::atomic<int> scen, len, done;
  int choices[MAXC];
  std::atomic<int> nclaims;
  uint32_t claims[MAXCLAIM];
  std::atomic<uint64_t> runidx; // runs executed since the last claim
};
struct ScStat { std::atomic<uint64_t> next, runs, nodes, ops, cmp, errs, total; std::atomic<int> cut, finished; std::atomic<uint64_t> us; };
struct FailRec { int used; int scen; int len; int choices[MAXC]; char sig[256]; char msg[3000]; };
struct Shm {
  std::atomic<int> stop; std::atomic<int> nfail;
  std::atomic<uint64_t> known[256];
  ScStat sc[MAXSC];
  FailRec fail;
  std::atomic<int> failLock;
  std::atomic<uint64_t> user[64]; // counters of the check itself
  std::atomic<uint32_t> outcome[1<<16];
  std::atomic<uint32_t> state[1<<23]; // 2^28 bits: set of state hashes
  Worker w[MAXW];
};
extern Shm* shm;

struct Ex {
  vector<int> c, n; size_t pos = 0;
  bool verbose = false, sharding = false; bool thorough = false;
  size_t D = 0; uint64_t prefixIdx = 0; uint64_t claimed = 0; bool owned = true;
  int scen = 0; Worker* w = nullptr; ScStat* st = nullptr;
  uint64_t nodes = 0, ops = 0, cmps = 0, errs = 0;
  int budget = 0; // deviations left in this run
  string log; string sig; // sig: class of the current case, used for known findings
  std::function<bool()> claimNext;
  uint64_t fixed = 0; bool replay = false; // replaying a given vector

  int pick(int k, const char* = "") {
    if (k<=0) { fprintf(stderr, "pick(%d)\n", k); abort(); }
    int r;
    if (pos < c.size()) {
      if (n[pos]==0) n[pos] = k; // replayed vector
      if (n[pos]!=k) throw Failure{"divergence", strf("internal: the scenario is not deterministic: choice %zu had %d answers, now %d", pos, n[pos], k)};
      r = c[pos];
      if (r>=k) throw Failure{"divergence", strf("internal: choice %zu out of range", pos)};
    } else {
      if (replay) { c.push_back(0); n.push_back(k); }
      else { c.push_back(0); n.push_back(k); nodes++; }
      r = 0;
    }
    if (w && pos<MAXC) { w->choices[pos] = r; w->len.store(pos+1, std::memory_order_relaxed); }
    pos++;
    if (w) w->tick.fetch_add(1, std::memory_order_relaxed);
    if (sharding && pos==D) {
      if (prefixIdx != claimed) { throw Skip{}; }
    }
    return r;
  }
  template<class T> const T& of(const vector<T>& v, const char* l="") { return v[pick(v.size(), l)]; }
  template<class T> T of(vector<T>&& v, const char* l="") { return v[pick(v.size(), l)]; }
  bool flag(const char* l="") { return pick(2, l); }
  // a departure from the default answer 0, paid from the run's deviation budget
  int deviate(int k, const char* l="") { if (budget<=0 || k<=1) return 0; int r = pick(k, l); if (r) budget--; return r; }
  void op(uint64_t k=1) { ops+= k; }
  void compared(uint64_t k=1) { cmps+= k; }
  void tick() { if (w) w->tick.fetch_add(1, std::memory_order_relaxed); }
  void outcome(uint64_t h) { h*= 0x9E3779B97F4A7C15ull; h^= h>>29; h*= 0xBF58476D1CE4E5B9ull; h>>= 43; auto& o = shm->outcome[h>>5]; uint32_t b = 1u<<(h&31); if (!(o.load(std::memory_order_relaxed)&b)) o.fetch_or(b); }
  // adds a 64-bit state hash to the set of visited states; true if it was new
  bool state(uint64_t h) { h*= 0x9E3779B97F4A7C15ull; h^= h>>32; h*= 0xBF58476D1CE4E5B9ull; h^= h>>29; h>>= 36; auto& o = shm->state[h>>5]; uint32_t b = 1u<<(h&31); if (o.load(std::memory_order_relaxed)&b) return false; return !(o.fetch_or(b)&b); }
  void say(const char* f, ...) { if (!verbose) return; va_list a; va_start(a,f); char* p; if (vasprintf(&p,f,a)<0) abort(); va_end(a); log+= p; log+= "\n"; free(p); }
  [[noreturn]] void fail(const char* f, ...) { va_list a; va_start(a,f); char* p; if (vasprintf(&p,f,a)<0) abort(); va_end(a); string s=p; free(p); throw Failure{sig, s}; }
};

struct Scenario { string name; int D; std::function<void(Ex&)> run; int tiers = 3; string bound; }; // tiers: 1 quick, 2 thorough
struct Config {
  string property, level = "model_checking", rule;
  vector<string> assumptions;
  vector<Scenario> sc;
  std::function<void()> init;      // before forking
  std::function<void()> perWorker; // after forking
  std::function<void()> perRun;    // after every run
  std::function<void(Ex&)> after;  // what must hold after every run
  std::function<string()> extra;   // more coverage fields, as JSON "k":v, text
  double hang = 25; double budgetQuick = 240, budgetThorough = 840;
  bool useStates = false; // states = distinct state hashes instead of choice-tree nodes
  int workers = 0;
  vector<string> userNames;
};
int mainMC(int argc, char** argv, Config cfg);
extern void (*configHook)(Config&); // changes every configuration before it is run
extern Ex* current; // the execution under way
inline void count(int i, uint64_t k=1) { shm->user[i].fetch_add(k, std::memory_order_relaxed); }
}
