// Grouping: 𝕨⊔𝕩 and ⊔𝕩 with a list of group numbers.
#include "gen.hpp"
using namespace bq;
static Outcome o2(const Val& w, const Val& x) { return outcomeOf([&]() { return p2("⊔", w, x); }); }
static Outcome o1(const Val& x) { return outcomeOf([&]() { return p1("⊔", x); }); }
// the fill of every group is 𝕩's, and an empty group keeps the cell shape
static void groupFills(Ex& ex, const Val& w, const Val& x, const Rep& rx) {
  BV r; BV a = toB(w), b = toB(x, rx); if (cb_c2(fnOf("⊔"), a, b, &r)) return;
  Val xf; BV f; BV t = toB(x, rx); bool known = cb_fill(t, &f); if (known) xf = fromB(f); cb_dec(t);
  if (cb_kind(r)==CK_ARR) for (size_t i = 0; i < cb_ia(r) && known; i++) { BV g = cb_item(r, i); BV gf; ex.compared(); if (!cb_fill(g, &gf)) ex.fail("%s ⊔ %s  [𝕩 %s]\n  group %zu has no fill, 𝕩 has %s", show(w).c_str(), show(x).c_str(), rx.str().c_str(), i, show(xf).c_str()); if (!same(gf, xf)) ex.fail("%s ⊔ %s  [𝕩 %s]\n  group %zu has fill %s, 𝕩 has %s", show(w).c_str(), show(x).c_str(), rx.str().c_str(), i, show(fromB(gf)).c_str(), show(xf).c_str()); }
  cb_dec(r); ex.op();
}
static void small(Ex& ex) { // every 𝕨 of up to 5 items, and one item more than 𝕩
  int n = ex.pick(ex.thorough? 7 : 6); int extra = ex.pick(7); vector<Val> w; for (int i = 0; i < n; i++) w.push_back(Val(ex.pick(4)-1)); if (extra) w.push_back(Val(extra-2)); int fam = ex.pick(FAM_N); if (n>4 && !ex.thorough && fam%3) return;
  int cell = ex.pick(3); Val x = famArr(fam, cell==0? Sh{(size_t)n} : cell==1? Sh{(size_t)n, 3} : Sh{(size_t)n, 0}, 100, 5), W = Val::vec(w); Outcome o = o2(W, x);
  star2(ex, "⊔", fnOf("⊔"), W, x, o, n<4? 1 : 0); if (!o.err && n<4) for (auto& r : repsOf(x, 0)) groupFills(ex, W, x, r);
}
static const vector<Sh> CELLS = {{}, {1}, {0}, {2}, {3}, {4}, {5}, {7}, {8}, {9}, {16}, {24}, {31}, {32}, {33}, {40}, {64}, {65}, {128}, {2,4}, {3,0}};
static Val numbers(int p, size_t n, uint64_t seed) { // patterns of group numbers
  uint64_t s = seed*31+n; vector<Val> w; double d = 0;
  for (size_t i = 0; i < n; i++) { uint64_t q = lcg(s)>>4; switch (p) {
    case 0: d = q%3; break;                                // unsorted, few groups
    case 1: d = (double)(i*5/n); break;                    // sorted
    case 2: d = i<n/3? -1 : (double)(i*4/n); break;        // sorted with a leading run of ¯1
    case 3: d = q%2? -1 : (double)(q/2%4); break;          // half ¯1
    case 4: d = q%24==0? -1 : (double)(q%7); break;        // a few ¯1
    case 5: d = i<n/2? 3 : 1; break;                       // one change, unsorted
    case 6: d = i<n/4? 2 : i<n/2? -1 : 0; break;           // few changes with ¯1
    case 7: d = q%2; break;                                // Boolean
    case 8: d = (double)(n-i); break;                      // all different, falling
    case 9: d = (double)(i*2+i/50); break;                 // all different, rising, with gaps
    case 10: d = i%97==50? 130 : (double)(q%2*129); break; // beyond a byte
    case 11: d = i<3? -1 : i%64<60? 5 : 0; break;          // runs
    case 12: d = -1; break;
    case 13: d = 4; break;
    case 14: d = i==n/2? 40000 : (double)(q%5); break;
    default: d = i==0? 0 : i==n-1? 2 : -1; } w.push_back(Val(d)); }
  return Val::vec(w);
}
static const int NP = 16;
static void lengths(Ex& ex) {
  static const vector<size_t> N = {1,2,3,8,31,32,33,34,48,63,64,65,66,100,127,128,129,200}; size_t n = ex.of(N); int fam = ex.pick(FAM_N), p = ex.pick(NP), c = ex.pick(CELLS.size()); const Sh& cs = CELLS[c]; if (prod(cs)>9 && (fam>=FAM_MIX || (!ex.thorough && fam>FAM_I16 && n>34))) return; if (p==14 && (n<30 || c>2)) return; if (prod(cs)*n>3000 && !ex.thorough && n!=65 && n!=128) return;
  Val w = numbers(p, n, 3); Val x = famArr(fam, concat({n}, cs), 200, 9); int extra = ex.pick(2); if (extra) { vector<Val> v = w.it(); v.push_back(Val(p%2? 9 : 1)); w = Val::vec(v); }
  Outcome o = o2(w, x); if (n<70 && c<4) star2(ex, "⊔", fnOf("⊔"), w, x, o, 1); else cross2(ex, "⊔", fnOf("⊔"), w, x, o, 0, c==0? 1 : 0);
}
static void chunks(Ex& ex) { // the number of changes of 𝕨 around the limits of moving in runs
  size_t n = ex.of(vector<size_t>{64,65,66,96,127,128,129,160,256,300}); size_t ch = ex.pick(26); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8, FAM_C32, FAM_NEST}); const Sh& cs = ex.of(vector<Sh>{{}, {1}, {2}, {3}, {8}, {33}}); int kind = ex.pick(4); // rising, alternating with ¯1, falling, back and forth
  if (fam==FAM_NEST && cs.size()) return; if (cs.size() && prod(cs)>8 && fam>FAM_I8) return;
  vector<Val> w; size_t at = 0; for (size_t i = 0; i < n; i++) { while (ch && at<ch && (at+1)*n/(ch+1)<=i) at++; w.push_back(Val(kind==0? (double)at : kind==1? (at%2? -1.0 : (double)at) : kind==2? (double)(ch-at) : (double)(at%3))); }
  Val W = Val::vec(w), x = famArr(fam, concat({n}, cs), 200, n+ch); cross2(ex, "⊔", fnOf("⊔"), W, x, o2(W, x), 0, 0);
}
static void runAt(Ex& ex) { // one run of another group at every offset: bit moves at every alignment
  size_t n = ex.of(vector<size_t>{65, 130, 260}); size_t s = ex.pick(n<100? n : 70), l = ex.of(vector<size_t>{1,2,3,7,8,31,63,64,65,70}); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_F64}); int neg = ex.pick(2); if (s+l>n) return; vector<Val> w(n, Val(1)); for (size_t i = s; i < s+l; i++) w[i] = Val(neg? -1 : 0);
  Val W = Val::vec(w), x = famArr(fam, {n}, 200, 11); call2(ex, "⊔", fnOf("⊔"), W, {.elt=CE_I8}, x, {}, o2(W, x)); ex.tick(); if (fam==FAM_BIT) for (int k : {1, 7, 64}) { call2(ex, "⊔", fnOf("⊔"), W, {.elt=CE_I32}, x, {.elt=CE_BIT, .slice=k}, o2(W, x)); ex.tick(); }
}
static void negs(Ex& ex) { // how many ¯1s: around the limits of filtering them out first
  size_t n = ex.of(vector<size_t>{31,32,33,34,48,64,65,80,100,520,1040}); size_t k = n>100? ex.of(vector<size_t>{0,1,2,15,16,17,31,32,33,n/16-1,n/16,n/16+1}) : ex.pick(n+1); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_F64, FAM_C16, FAM_NEST}); int c = ex.pick(3), order = ex.pick(4); if (n<=100 && !ex.thorough && k>12 && k+3<n && k%7) return; vector<Val> w; for (size_t i = 0; i < n; i++) { bool m = order==0 || order==3? i<k : order==1? i*k/n!=(i+1)*k/n : i>=n-k; w.push_back(Val(m? -1.0 : (double)(order==3? (i-k)/2 : order==2? i*4/n : i*7%5))); }
  Val W = Val::vec(w), x = famArr(fam, c==0? Sh{n} : c==1? Sh{n,2} : Sh{n,8}, 200, 5); cross2(ex, "⊔", fnOf("⊔"), W, x, o2(W, x), 0, 0);
}
static void bad(Ex& ex) { // an invalid number anywhere, and lengths that do not fit
  size_t n = ex.of(vector<size_t>{0,1,2,5,40,100}); int d = ex.pick(5)-2; if ((long)n+d<0) return; static const vector<Val> A = {0, 1, -1, -2, -128, -32768, 0.5, 1e10, -1e10, Val((double)NAN), Val((double)INFINITY), Val::chr('a')}; size_t m = n+d; int e = ex.pick(A.size()); size_t np = std::min<size_t>(m, 8); size_t at = m? ex.pick(np) : 0; if (m>np) at = at<4? at : m-1-(at-4);
  vector<Val> w; for (size_t i = 0; i < m; i++) w.push_back(Val((double)(i%3))); if (m) w[at] = A[e]; Val W = Val::vec(w); for (auto& s : vector<Sh>{{n}, {n,2}}) for (int fam : {FAM_BIT, FAM_I16, FAM_NEST}) { Val x = famArr(fam, s, 100, 3); all2(ex, "⊔", fnOf("⊔"), W, x, o2(W, x), 0, 0); } if (m==0 || d==0) { Val x = Val(3); all2(ex, "⊔", fnOf("⊔"), W, x, Outcome{.err=true}, 0, 0); }
}
static void big(Ex& ex) { // more groups and items than fit narrow index types
  size_t n = ex.of(vector<size_t>{300, 32768, 32769, 70000}); int k = ex.pick(5), fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I32, FAM_F64}); uint64_t s = n; vector<Val> w; for (size_t i = 0; i < n; i++) { uint64_t q = lcg(s); w.push_back(Val(k==0? (double)(q%70000) : k==1? (double)(i/2) : k==2? (double)(q%127) : k==3? (q%3? -1.0 : (double)(q%32768)) : (double)(i/4000))); } Val W = Val::vec(w), x = famArr(fam, {n}, 200, 5); call2(ex, "⊔", fnOf("⊔"), W, {}, x, {}, o2(W, x)); ex.tick();
}
static void indices(Ex& ex) { // ⊔𝕩
  int n = ex.pick(ex.thorough? 9 : 7); vector<Val> v; for (int i = 0; i < n; i++) v.push_back(Val(ex.pick(4)-1)); Val x = Val::vec(v); if (n==0) { for (int e : {CE_BIT, CE_I8, CE_F64}) call1(ex, "⊔", fnOf("⊔"), x, {.elt=e}, o1(x)); return; } for (auto& r : repsOf(x, n<5? 2 : 0)) if (r.elt!=CE_B) { call1(ex, "⊔", fnOf("⊔"), x, r, o1(x)); ex.tick(); }
}
static void indicesLen(Ex& ex) { size_t n = ex.of(vector<size_t>{7,31,32,33,63,64,65,100,127,128,129,255,256,257,1000,33000}); int p = ex.pick(NP); Val x = numbers(p, n, 7); for (auto& r : repsOf(x, 1)) if (r.elt!=CE_B) { call1(ex, "⊔", fnOf("⊔"), x, r, o1(x)); ex.tick(); } if (n<200) for (Val b : {Val(-2), Val(0.5), Val(-129), Val((double)NAN)}) for (size_t at : {(size_t)0, n/2, n-1}) { vector<Val> v = x.it(); v[at] = b; Val y = Val::vec(v); call1(ex, "⊔", fnOf("⊔"), y, {}, o1(y)); } }
int main(int argc, char** argv) {
  mc::Config c; c.property = "C08"; c.assumptions = {"grouping along several axes, or by units and nested lists, is implemented only by the BQN runtime and not covered", "groups are not requested in numbers that would need more than 2·10⁷ of them"};
  c.init = []() { cb_init(); fnOf("⊔"); };
  c.perRun = gcEvery(300); c.after = sharedIntact;
  c.sc = {{"small", 3, small, 3, "every 𝕨 of up to 5 (6) items of ¯1..2, with and without one item more, × 10 families × 3 cell shapes"},
          {"lengths", 3, lengths, 3, "18 lengths × 16 patterns of group numbers × 10 families × 21 cell shapes"},
          {"chunks", 3, chunks, 3, "0–25 changes of 𝕨 × 10 lengths × 8 families × 6 cell sizes × 4 kinds"},
          {"run-at", 3, runAt, 3, "one run at every offset × 10 run lengths × 3 lengths"},
          {"negatives", 3, negs, 3, "every number of ¯1s × 9 lengths, 12 numbers × 2 lengths, × 5 families × 4 orders"},
          {"bad", 2, bad, 3, "12 valid and invalid numbers at the first and last positions, length differences ¯2..2"},
          {"big", 2, big, 3, "up to 70000 items and groups"},
          {"indices", 3, indices, 3, "⊔ of every list of up to 6 (8) of ¯1..2"},
          {"indices-lengths", 2, indicesLen, 3, "16 lengths × 16 patterns, invalid numbers"}};
  return mainMC(argc, argv, c);
}
