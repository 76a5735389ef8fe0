// The allocator: every sequence of allocating, freeing and collecting.
#include "gen.hpp"
using namespace bq;
extern "C" { void* hp_new(uint64_t); void hp_free(void*); void* hp_data(void*); uint64_t hp_usable(void*), hp_size(void*), hp_ia(void*), hp_alloc(), hp_used(), hp_max(); int hp_type(void*); void hp_setmax(uint64_t); void hp_gc(); int hp_walk(void**, uint64_t, uint64_t*, uint64_t*, uint64_t*, uint64_t*); }
#ifndef ALIGN
  #define ALIGN 32
#endif
typedef uint64_t U;
struct Heap {
  Ex& ex; vector<void*> live; vector<U> sz; vector<unsigned char> tag; string hist; U base, freeB = 0, biggest = 0; int n = 0; U state = 7;
  Heap(Ex& ex) : ex(ex) { base = hp_used(); }
  void mark(size_t i) { unsigned char* d = (unsigned char*)hp_data(live[i]); U k = hp_ia(live[i]); if (k<400) memset(d, tag[i], k); else { memset(d, tag[i], 128); memset(d+k-128, tag[i], 128); for (U j = 4096; j < k; j+= 4096) d[j] = tag[i]; } }
  bool intact(size_t i) { unsigned char* d = (unsigned char*)hp_data(live[i]), t = tag[i]; U k = hp_ia(live[i]); for (U j = 0; j < k && j < 400; j++) if (d[j]!=t && (k<400 || j<128)) return false; if (k>=400) { for (U j = k-128; j < k; j++) if (d[j]!=t) return false; for (U j = 4096; j < k; j+= 4096) if (d[j]!=t) return false; } return hp_type(live[i]) && k==sz[i]; }
  bool alloc(U s) {
    hist+= strf(" ⋄ +%lu", (unsigned long)s); void* p = hp_new(s); ex.op(); if (!p) { hist+= " (refused)"; state = mix(state, 3); return false; }
    if (hp_usable(p)<s) ex.fail("heap%s\n  gives an object of %lu usable bytes", hist.c_str(), (unsigned long)hp_usable(p)); if (hp_size(p)<hp_usable(p)) ex.fail("heap%s\n  gives a block smaller than what is usable of it", hist.c_str());
    if ((size_t)hp_data(p)&(ALIGN-1)) ex.fail("heap%s\n  gives an array whose elements are not aligned to %d bytes", hist.c_str(), ALIGN); if ((U)(size_t)p+hp_size(p) > 1ull<<48) ex.fail("heap%s\n  gives an address beyond 2⋆48", hist.c_str());
    live.push_back(p); sz.push_back(hp_ia(p)); tag.push_back(1+n++%250); mark(live.size()-1); state = mix(state, hp_size(p)); return true;
  }
  void free(size_t i) { hist+= strf(" ⋄ -%lu", (unsigned long)sz[i]); if (!intact(i)) ex.fail("heap%s\n  an object of %lu bytes was overwritten", hist.c_str(), (unsigned long)sz[i]); hp_free(live[i]); live.erase(live.begin()+i); sz.erase(sz.begin()+i); tag.erase(tag.begin()+i); ex.op(); }
  void gc() { hist+= " ⋄ collection"; hp_gc(); ex.op(); }
  void check() {
    ex.compared(1+live.size()); U used, why; int r = hp_walk(live.data(), live.size(), &used, &freeB, &biggest, &why); static const char* T[] = {"", "blocks overlap", "the blocks do not fill the heap exactly", "a live object is in no block", "the block of a live object counts as free"};
    if (r) ex.fail("heap%s\n  %s (%lu; %lu allocated)", hist.c_str(), T[r], (unsigned long)why, (unsigned long)hp_alloc()); U mine = 0; for (void* p : live) mine+= hp_size(p);
    if (used!=hp_used() || hp_used()!=base+mine) ex.fail("heap%s\n  %lu bytes are in use, the heap's count is %lu, expected %lu", hist.c_str(), (unsigned long)used, (unsigned long)hp_used(), (unsigned long)(base+mine));
    for (size_t i = 0; i < live.size(); i++) { if (!intact(i)) ex.fail("heap%s\n  an object of %lu bytes was overwritten", hist.c_str(), (unsigned long)sz[i]); for (size_t j = 0; j < i; j++) if (live[i]==live[j]) ex.fail("heap%s\n  gives the same block twice", hist.c_str()); }
  }
  // all free memory can be had in pieces of one size without growing the heap
  void exhaust(U s, U piece) { // piece: the block size s takes
    check(); U a0 = hp_alloc(), can = freeB/piece, lim = hp_max(); vector<void*> got; hp_setmax(a0); U n0 = 0; while (n0<=can+1) { void* p = hp_new(s); if (!p) break; got.push_back(p); n0++; if (n0%4096==0) ex.tick(); }
    U al = hp_alloc(); hp_setmax(lim); for (size_t i = got.size(); i-- > 1;) if (got[i]==got[i-1]) ex.fail("heap%s\n  gives the same block twice", hist.c_str()); for (void* p : got) hp_free(p); if (al>a0) ex.fail("heap%s\n  grew past its limit", hist.c_str());
    if (ALIGN==32 && n0<can-(can>>3)-2) ex.fail("heap%s\n  only %lu of %lu free pieces of %lu bytes can be allocated", hist.c_str(), (unsigned long)n0, (unsigned long)can, (unsigned long)piece); check();
  }
  ~Heap() { for (void* p : live) hp_free(p); }
};
static U SZ(int i) { static const U s[] = {40, 65, 96, 129, 1000, 5000, 70000, 400000, 1048576, 1048577, 3000000, 9000000}; return s[i]; }
static void sequences(Ex& ex) { // small and large blocks in one heap, which still has its old contents
  static const int SETS[5][4] = {{0, 1, 4, 6}, {1, 2, 3, 5}, {4, 6, 7, 8}, {0, 7, 9, 10}, {3, 6, 8, 11}}; const int* S = SETS[ex.pick(5)]; int depth = ex.thorough? 7 : 6; hp_gc(); Heap h(ex);
  for (int d = 0; d < depth; d++) { int op = ex.pick(8); if (op==7) break; if (op<4) h.alloc(SZ(S[op])); else if (op==6) { if (h.n==0) return; h.gc(); } else { if (h.live.empty()) return; if (op==5 && h.live.size()<2) return; h.free(op==4? 0 : h.live.size()-1); } }
  h.check(); while (!h.live.empty()) h.free(h.live.size()/2); h.check(); ex.state(h.state); ex.outcome(h.freeB);
}
static void fresh(Ex& ex) { // a region of its own, split and merged: which pieces are freed, in which order, before a collection merges them
  U big = ex.of(vector<U>{1<<16, 3<<15, 1<<17}), piece = big/8; unsigned mask = ex.pick(256); int order = ex.pick(3); int again = ex.pick(4); hp_gc(); Heap h(ex);
  for (int i = 0; i < 8; i++) if (!h.alloc(piece)) return; h.check(); vector<void*> gone; for (int i = 0; i < 8; i++) { int k = order==0? i : order==1? 7-i : (i*5)%8; if (mask>>k&1) gone.push_back(h.live[k]); }
  for (void* p : gone) h.free(std::find(h.live.begin(), h.live.end(), p)-h.live.begin()); h.check(); if (again&1) h.gc(); h.check(); for (U s : {big/2, big/4, piece, piece/2}) { h.alloc(again&2? s : s-100); h.check(); } h.gc(); h.check(); while (!h.live.empty()) h.free(0); h.check(); ex.state(h.state); ex.outcome(mask);
}
static void everySize(Ex& ex) { // every object size
  int blk = ex.pick(64); Heap h(ex); U lo = 33+(U)blk*2100, hi = lo+2100; for (U s = lo; s < hi; s++) { if (!h.alloc(s)) ex.fail("an object of %lu bytes cannot be allocated", (unsigned long)s); void* p = h.live.back(); if (hp_size(p)>s*2+64) ex.fail("an object of %lu bytes takes a block of %lu", (unsigned long)s, (unsigned long)hp_size(p)); h.hist = ""; if (s%16==0) h.check(); if (h.live.size()>20) h.free(0); ex.tick(); }
  int e = 17+blk/6; if (e<=(ex.thorough? 27 : 24)) for (long d = -70; d <= 70; d++) { U s = (1ull<<e)+(blk%6==1? (1ull<<(e-1)) : 0)+d; if (!h.alloc(s)) ex.fail("an object of %lu bytes cannot be allocated", (unsigned long)s); h.hist = ""; h.check(); h.free(h.live.size()-1); ex.tick(); }
  h.check(); ex.state(blk);
}
static void exhausting(Ex& ex) { // after a history, all that is free can be used
  unsigned mask = ex.pick(64); int kind = ex.pick(4); U s = ex.of(vector<U>{64, 500, 2048, 30000}); hp_gc(); Heap h(ex); static const U sz[4][6] = {{40, 5000, 70000, 40, 300, 3000}, {100, 100, 100, 100, 100, 100}, {65536, 131072, 65000, 1048576, 40000, 2000}, {3000, 6000, 12000, 24000, 48000, 96000}};
  for (int i = 0; i < 6; i++) h.alloc(sz[kind][i]); for (int i = 6; i--;) if (mask>>i&1) h.free(i); if (kind&1) h.gc(); h.gc(); h.check(); while (h.freeB/s>20000) s*= 4; void* p = hp_new(s); U piece = hp_size(p); hp_free(p); h.hist+= strf(" ⋄ all free memory in pieces of %lu", (unsigned long)s);
  h.exhaust(s, piece); while (!h.live.empty()) h.free(0); h.check(); ex.state(mix(mask, s*4+kind));
}
static void limited(Ex& ex) { // sequences under a heap limit: refused only when nothing free is large enough and there is no room
  static const U S[4] = {200000, 1500000, 4000000, 12000000}; hp_gc(); Heap h(ex); U lim0 = hp_max(), lim = hp_alloc()+ex.of(vector<U>{0, 5u<<20, 20u<<20}); int depth = ex.thorough? 6 : 5; hp_setmax(lim); struct B { U m; ~B() { hp_setmax(m); } } back{lim0};
  for (int d = 0; d < depth; d++) { int op = ex.pick(7); if (op==6) break; if (op<4) { h.check(); hp_gc(); h.check(); U big = h.biggest, a0 = hp_alloc(); bool ok = h.alloc(S[op]); if (!ok) { U need = S[op]+S[op]/2; if (ALIGN==32 && big>=2*S[op]) ex.fail("heap%s\n  although a block of %lu is free", h.hist.c_str(), (unsigned long)big); if (a0+4*std::max<U>(need, 3u<<20)<=lim) ex.fail("heap%s\n  although %lu of %lu bytes are allocated", h.hist.c_str(), (unsigned long)a0, (unsigned long)lim); } if (hp_alloc()>lim) ex.fail("heap%s\n  %lu bytes are allocated, more than the limit of %lu", h.hist.c_str(), (unsigned long)hp_alloc(), (unsigned long)lim); }
    else { if (h.live.empty()) return; h.free(op==4? 0 : h.live.size()-1); } h.check(); }
  while (!h.live.empty()) h.free(h.live.size()-1); h.check(); for (int i = 0; i < 10; i++) if (!h.alloc(3000)) ex.fail("heap%s\n  after everything was freed", h.hist.c_str()); ex.state(h.state); ex.outcome(h.freeB);
}
// running into the limit collects garbage cycles, every time it happens
static void garbage(Ex& ex) {
  U s = ex.of(vector<U>{3000, 40000, 300000, 1500000, 5000000}); int m = ex.of(vector<int>{3, 4, 6, 10}), held = ex.pick(3), step = 1+ex.pick(3), two = ex.pick(2); hp_gc(); static BV hm = fnOf("•HashMap"), rs = fnOf("⥊"); U blk = 1; while (blk<s+64) blk*= 2;
  U lim0 = hp_max(); struct B { U m; ~B() { hp_setmax(m); } } back{lim0}; vector<BV> keep; auto must = [&](int rc, int i, const char* w) { ex.op(); if (rc) ex.fail("blocks of %lu bytes, a limit of %d more: %s in round %d fails (%s), though everything but the last round's is garbage", (unsigned long)s, m, w, i, cb_err()); };
  auto arr = [&](U n, int i, BV* r) { return cb_c2(rs, cb_mknum(n/8), cb_mknum(i+.5), r); };
  for (int i = 0; i < held; i++) { BV r; must(arr(s, i, &r), i, "an array to keep"); keep.push_back(r); }
  U rg = s<1<<16? 4u<<20 : 2*blk; static void* big = hp_new(1u<<30); if (!big) ex.fail("a large block cannot be allocated"); hp_gc(); // so that the limit is met before a collection is due anyway
  hp_setmax(hp_alloc()+std::max<U>(m*blk, rg)); int rounds = s<10000? 20000 : 60; // far more than fits
  for (int i = 0; i < rounds; i++) { BV e1 = toB(Val::vec({})), e2 = toB(Val::vec({})), ns, set, r, a; must(cb_c2(hm, e1, e2, &ns), i, "making a map"); if (cb_field(ns, "set", &set)) ex.fail("no field");
    must(arr(two && i%2? s/2 : s, i, &a), i, "making an array"); must(cb_c2(set, cb_mknum(1), a, &r), i, "setting"); cb_dec(r); if (i%step==0) { must(cb_c2(set, cb_mknum(2), cb_inc(ns), &r), i, "setting the map in itself"); cb_dec(r); } cb_dec(set); cb_dec(ns); if (hp_alloc()>hp_max()) ex.fail("%lu bytes are allocated, the limit is %lu", (unsigned long)hp_alloc(), (unsigned long)hp_max()); if (i%64==0) ex.tick(); }
  for (BV k : keep) cb_dec(k); ex.state(mix(s, m*100+held*10+step));
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C18"; c.useStates = true; c.assumptions = {"blocks are seen through the heap walks the collector uses"};
  c.init = []() { cb_init(); cb_gc(); };
  c.sc = {{"exhausting", 2, exhausting, 3, "64 subsets × 4 sets of sizes × 4 piece sizes: all free memory is usable"},
          {"sequences", 4, sequences, 3, "5 sets of 4 sizes × every sequence of up to 6 (7) of allocating, freeing and collecting"},
          {"fresh", 3, fresh, 3, "3 regions × all 256 subsets of 8 pieces freed × 3 orders × 4 ways on"},
          {"every-size", 1, everySize, 3, "every size from 33 to 134000 bytes and around every (3×)power of two up to 2⋆27"},
          {"garbage", 3, garbage, 3, "5 sizes × 4 limits × 0–2 kept × every first, second or third a cycle: cyclic garbage many times the limit"},
          {"limited", 3, limited, 3, "3 heap limits × every sequence of up to 5 (6) of 4 large sizes and frees"}};
  return mainMC(argc, argv, c);
}
