// Ordering: ∧ ∨ ⍋ ⍒ and bins.
#include "gen.hpp"
using namespace bq;
static Outcome o1(const string& g, const Val& x) { return outcomeOf([&]() { return p1(g, x); }); }
static Outcome o2(const string& g, const Val& w, const Val& x) { return outcomeOf([&]() { return p2(g, w, x); }); }
static const vector<string> ORD = {"∧","∨","⍋","⍒"};
static void smallMixed(Ex& ex) { // every list of up to 4 (5) of 9 values
  static const vector<Val> A = {0, 1, Val(-1), Val(0.5), Val(300), Val::chr('a'), Val::chr('b'), Val::vec({Val(1)}), Val::vec({})};
  int n = ex.pick(ex.thorough? 6 : 5); vector<Val> v; for (int i = 0; i < n; i++) v.push_back(ex.of(A)); Val x = Val::vec(v);
  for (auto& g : ORD) all1(ex, g, fnOf(g), x, o1(g, x), 2);
}
static void smallInts(Ex& ex) { // every list over three values, placed at different magnitudes
  int n = ex.pick(ex.thorough? 11 : 9); static const vector<vector<Val>> A = {{0, 1, 0}, {0, 1, 2}, {Val(-128), Val(0), Val(127)}, {Val(-32768), Val(5), Val(32767)}, {Val(-2147483648.0), Val(5), Val(2147483647.0)}, {Val(1), Val(0.5), Val(1e18)}, {Val::chr('a'), Val::chr(0), Val::chr(255)}, {Val::chr(300), Val::chr('b'), Val::chr(0x10FFFF)}, {Val::str("a"), Val::str("ab"), Val(3)}};
  if (n==0) return; const auto& a = A[ex.pick(A.size())]; vector<Val> v; for (int i = 0; i < n; i++) v.push_back(a[ex.pick(3)]); Val x = Val::vec(v); for (auto& g : ORD) all1(ex, g, fnOf(g), x, o1(g, x), n<6? 2 : 0);
}
static void perms(Ex& ex) { // permutations, and lists one change away from one
  int n = 3+ex.pick(ex.thorough? 6 : 5); vector<int> p; vector<int> left; for (int i = 0; i < n; i++) left.push_back(i); for (int i = 0; i < n; i++) { int k = ex.pick(left.size()); p.push_back(left[k]); left.erase(left.begin()+k); }
  for (double base : {0.0, 1000.0, -70000.0, 100000.0}) { vector<Val> v; for (int q : p) v.push_back(Val(base+q)); Val x = Val::vec(v); for (auto& g : ORD) for (auto& r : repsOf(x, 0)) { call1(ex, g, fnOf(g), x, r, o1(g, x)); ex.tick(); } 
    if (base>0) { v[0] = v[n-1]; Val y = Val::vec(v); for (auto& g : ORD) call1(ex, g, fnOf(g), y, {}, o1(g, y)); v[0] = Val(base+p[0]); v[1] = Val(base+p[1]-1); v[2] = Val(base+p[2]+1); Val z = Val::vec(v); for (auto& g : ORD) call1(ex, g, fnOf(g), z, {}, o1(g, z)); } }
}
static vector<Val> patt(int p, size_t n, int fam) {
  vector<Val> r; uint64_t s = n*7+p;
  auto lv = [&](uint64_t k, uint64_t of) { // an increasing sequence within the family
    double t = of>1? (double)k/(of-1) : 0;
    switch (fam) { case FAM_BIT: return Val((int)(t>0.5)); case FAM_I8: return Val(std::floor(t*255)-128); case FAM_I16: return Val(std::floor(t*65535)-32768); case FAM_I32: return Val(std::floor(t*4294967295.0)-2147483648.0); case FAM_F64: return Val((t-0.5)*1e12+0.25); case FAM_C8: return Val::chr((uint32_t)(t*255)); case FAM_C16: return Val::chr((uint32_t)(t*65535)); case FAM_C32: return Val::chr((uint32_t)(t*0x10FFFF)); case FAM_MIX: return t<0.5? Val(t) : Val::chr((uint32_t)(t*60000)); default: return k%3? Val::vec({Val(t), Val(1)}) : Val::vec({Val(t)}); }
  };
  for (size_t i = 0; i < n; i++) { uint64_t q = lcg(s);
    switch (p) { case 0: r.push_back(lv(q%1000003, 1000003)); break; case 1: r.push_back(lv(i, n)); break; case 2: r.push_back(lv(n-1-i, n)); break; case 3: r.push_back(lv(i<n/2? 2*i : 2*(n-i)-1, 2*n)); break;
      case 4: r.push_back(lv(5, 11)); break; case 5: r.push_back(lv(q%3, 3)); break; case 6: r.push_back(lv(i%37, 37)); break; case 7: r.push_back(lv(i==n/2? 0 : i+1, n+1)); break;
      case 8: r.push_back(lv(n>1 && i==n-1? 0 : i+1, n+1)); break; case 9: r.push_back(lv((i/40)%2? i : n-i, n+1)); break; default: r.push_back(lv(q%40, 40)); break; } }
  return r;
}
static const int NP = 11;
static void lengths(Ex& ex) {
  static const vector<size_t> N = {1,2,3,7,8,9,10,15,16,17,18,19,20,21,31,32,33,40,41,42,63,64,65,66,100,127,128,129,130,200,255,256,257,300,500,1000}; size_t n = ex.of(N); int fam = ex.pick(FAM_N), p = ex.pick(NP);
  Val x = Val::vec(patt(p, n, fam)); for (auto& g : ORD) all1(ex, g, fnOf(g), x, o1(g, x), n<70? 2 : 1);
}
static void narrowRange(Ex& ex) { // values within a window whose width is near the length: bucket and permutation grading
  size_t n = ex.of(vector<size_t>{3,4,5,8,9,16,17,30,41,64,100,129,1000}); long w = ex.pick(9); long range = w==0? n-2 : w==1? n-1 : w==2? n : w==3? n+1 : w==4? 2*n-2 : w==5? 2*n-1 : w==6? 2*n : w==7? 2*n+1 : 2*n+5; if (range<1) range = 1;
  double base = ex.of(vector<double>{0, -5, 40000, -2147483648.0, 2147483647.0}); if (base==2147483647.0) base-= range-1; int p = ex.pick(5); uint64_t s = n+w; vector<Val> v;
  for (size_t i = 0; i < n; i++) { long k = p==0? (long)(lcg(s)%range) : p==1? (long)(i*7%range) : p==2? (long)((n-1-i)%range) : p==3? (i==0? 0 : i==1? range-1 : (long)(lcg(s)%range)) : (long)((i*range)/n); v.push_back(Val(base+k)); }
  Val x = Val::vec(v); for (auto& g : ORD) for (auto& r : repsOf(x, 0)) { call1(ex, g, fnOf(g), x, r, o1(g, x)); ex.tick(); }
}
static void big(Ex& ex) { // counter widths and output index widths
  size_t n = ex.of(vector<size_t>{4000, 8191, 8192, 8193, 8448, 9000, 32767, 32768, 32769, 33000, 65535, 65536, 65537, 70000}); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C16}); int p = ex.pick(NP); if (!ex.thorough && n>9000 && fam==FAM_F64 && p>3) return;
  Val x = Val::vec(patt(p, n, fam)); for (auto& g : ORD) { call1(ex, g, fnOf(g), x, {}, o1(g, x)); ex.tick(); } if (fam!=FAM_F64 && fam!=FAM_C16 && p<3) for (auto& g : ORD) { call1(ex, g, fnOf(g), x, Rep{.elt=CE_I32}, o1(g, x)); ex.tick(); }
}
static void huge(Ex& ex) { size_t n = ex.of(vector<size_t>{1<<22, (1<<22)+70, (1<<23)+3}); int fam = ex.of(vector<int>{FAM_I8, FAM_I16, FAM_BIT}); int p = ex.of(vector<int>{0, 2, 5}); Val x = Val::vec(patt(p, n, fam)); for (auto& g : ORD) { call1(ex, g, fnOf(g), x, {}, o1(g, x)); ex.tick(); } }
static void runs(Ex& ex) { // merge sort: every sequence of ascending/descending runs of these lengths, compared items stable
  static const vector<int> L = {1, 5, 33, 64, 70}; int k = 2+ex.pick(ex.thorough? 4 : 3); vector<Val> v; uint64_t s = 3; int kind = ex.pick(3);
  for (int i = 0; i < k; i++) { int c = ex.pick(L.size()*2); int len = L[c/2]; bool dn = c%2; double b = lcg(s)%50; for (int j = 0; j < len; j++) { double q = b+(dn? len-1-j : j)*(kind==0? 1 : kind==1? 0.5 : 2); v.push_back(kind==2? Val(std::floor(q/3)+0.5) : Val(q+0.25)); } }
  Val x = Val::vec(v); for (auto& g : ORD) call1(ex, g, fnOf(g), x, {}, o1(g, x)); ex.tick(); if (kind==2) { vector<Val> u; for (auto& q : v) u.push_back(Val::vec({Val(std::floor(q.n/2))})); Val y = Val::vec(u); for (auto& g : ORD) call1(ex, g, fnOf(g), y, {}, o1(g, y)); ex.tick(); }
}
static void cellsOrd(Ex& ex) {
  static const vector<Sh> S = {{}, {0,3}, {3,0}, {1,5}, {2,2}, {5,1}, {7,2}, {20,2}, {4,3,2}, {70,1}, {3,65}}; const Sh& s = ex.of(S); int fam = ex.pick(FAM_N); size_t range = ex.of(vector<size_t>{2, 3, 200}); Val x = famArr(fam, s, range, 4);
  for (auto& g : ORD) all1(ex, g, fnOf(g), x, o1(g, x), 1);
}
static void errs(Ex& ex) { for (Val x : {Val(3), Val::chr('a'), unitOf(Val(3))}) for (auto& g : ORD) all1(ex, g, fnOf(g), x, o1(g, x), 0); for (Val w : {Val(3), unitOf(Val(3))}) for (auto g : {"⍋","⍒"}) for (Val x : {Val(3), numsV({1,2})}) all2(ex, g, fnOf(g), w, x, o2(g, w, x), 0, 0); (void)ex.pick(1); }
// --- bins
static void binsSmall(Ex& ex) { // every 𝕨 of up to 3 items (sorted or not) against every item
  static const vector<Val> A = {0, 1, Val(-1), Val(0.5), Val(200), Val(70000), Val(1e10), Val(-2147483648.0), Val::chr('a'), Val::chr(300), Val::vec({Val(1)}), Val((double)INFINITY), Val(-(double)INFINITY), Val(-128), Val(-32768)};
  string g = ex.of(vector<string>{"⍋","⍒"}); int n = ex.pick(4); vector<Val> w; for (int i = 0; i < n; i++) w.push_back(ex.of(A)); Val W = Val::vec(w);
  vector<Val> nums, chars; for (auto& a : A) { if (a.isNum()) nums.push_back(a); if (a.isChr()) chars.push_back(a); } chars.push_back(Val::chr(0x10FFFF)); chars.push_back(Val::chr(0));
  for (const Val& x : {Val::vec(A), Val::vec(nums), Val::vec(chars), numsV({0,1,1}), numsV({0,1,-1,5}), numsV({200,-128}), numsV({-32768,70000,-2147483648.0})}) cross2(ex, g, fnOf(g), W, x, o2(g, W, x), n<3? 2 : 0, n<3? 1 : 0);
  for (auto& a : A) if (n<3) all2(ex, g, fnOf(g), W, a, o2(g, W, a), 0, 0);
}
static void binsLen(Ex& ex) { // sorted lists of every family and length against each family
  string g = ex.of(vector<string>{"⍋","⍒"}); int fw = ex.pick(FAM_N), fx = ex.pick(FAM_N); static const vector<size_t> N = {1,2,3,4,7,8,9,15,16,17,31,33,64,65,100,127,128,129,255,256,257,600}, M = {0,1,5,8,64,65,130,700}; size_t n = ex.of(N), m = ex.of(M); int p = ex.pick(3); if (!ex.thorough && fw>=FAM_MIX && n>130) return;
  Val w = p1(g=="⍋"? "∧" : "∨", Val::vec(patt(p==0? 0 : p==1? 5 : 6, n, fw))), x = Val::vec(patt(p==1? 10 : 0, m, fx)); cross2(ex, g, fnOf(g), w, x, o2(g, w, x), n<20? 1 : 0, n<20? 1 : 0);
  if (m==5) { vector<Val> both = {w.it()[0], w.it()[n-1], w.it()[n/2]}; for (auto& v : x.it()) both.push_back(v); Val y = Val::vec(both); cross2(ex, g, fnOf(g), w, y, o2(g, w, y), 0, 0); }
}
static void binsUnsorted(Ex& ex) { // one item out of order anywhere
  string g = ex.of(vector<string>{"⍋","⍒"}); int fam = ex.pick(FAM_N); size_t n = ex.of(vector<size_t>{2,3,8,9,64,65,66,128,129,200}); if (n>20 && fam>=FAM_MIX && !ex.thorough) n = 20; vector<Val> w = p1(g=="⍋"? "∧" : "∨", Val::vec(patt(1, n, fam))).it(); size_t at = ex.pick(n-1); std::swap(w[at], w[at+1]); Val W = Val::vec(w); Val x = Val::vec({w[0], w[1]}); for (auto& r : repsOf(W, 1)) { call2(ex, g, fnOf(g), W, r, x, {}, o2(g, W, x)); ex.tick(); }
  if (fam==FAM_BIT) { vector<Val> b; for (size_t i = 0; i < n; i++) b.push_back(Val((int)((i>at)^(g=="⍒")))); Val B = Val::vec(b); for (Val x : {numsV({0,1}), numsV({0.5,-1,2}), Val::str("a")}) for (auto& r : repsOf(B, 2)) { call2(ex, g, fnOf(g), B, r, x, {}, o2(g, B, x)); ex.tick(); } }
}
static void binsCells(Ex& ex) {
  static const vector<Sh> SW = {{3}, {2,2}, {3,1}, {2,2,2}, {0,2}}, SX = {{}, {2}, {3,2}, {2,2,2}, {4,1}, {0}, {2,0}}; string g = ex.of(vector<string>{"⍋","⍒"}); const Sh& sw = ex.of(SW); const Sh& sx = ex.of(SX); int fam = ex.pick(FAM_N); size_t range = ex.of(vector<size_t>{2, 5});
  Val w = p1(g=="⍋"? "∧" : "∨", famArr(fam, sw, range, 1)), x = famArr(fam, sx, range, 2); cross2(ex, g, fnOf(g), w, x, o2(g, w, x), 1, 1);
}
static void binsWide(Ex& ex) { // result widths
  string g = ex.of(vector<string>{"⍋","⍒"}); size_t n = ex.of(vector<size_t>{127,128,129,32766,32767,32768,32769,66000}); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8, FAM_C16}); Val w = p1(g=="⍋"? "∧" : "∨", Val::vec(patt(0, n, fam))); vector<Val> xs = {w.it()[0], w.it()[n-1], w.it()[n/2], w.it()[n/3]}; for (auto& v : patt(0, 40, fam)) xs.push_back(v); Val x = Val::vec(xs); for (auto& r : repsOf(x, 0)) { call2(ex, g, fnOf(g), w, {}, x, r, o2(g, w, x)); ex.tick(); }
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C06"; c.assumptions = {"where NaNs sort is unspecified"};
  c.init = []() { cb_init(); for (auto& g : ORD) fnOf(g); };
  c.perRun = gcEvery(500); c.after = sharedIntact;
  c.sc = {{"small-mixed", 3, smallMixed, 3, "every list of up to 4 (5) of 9 values"},
          {"small", 4, smallInts, 3, "every list of up to 8 (10) of 3 values in 9 alphabets at the type limits"},
          {"permutations", 3, perms, 3, "all permutations of 3–7 (8) values at 4 offsets, and two changes of each"},
          {"lengths", 3, lengths, 3, "36 lengths around the algorithm limits × 10 families × 11 orders × representations"},
          {"narrow-range", 3, narrowRange, 3, "13 lengths × 9 value ranges around the length × 5 offsets × 5 orders"},
          {"big", 3, big, 3, "14 lengths at the counter and index widths × 6 types × 11 orders"},
          {"huge", 3, huge, 2, "lengths beyond the counting limits"},
          {"runs", 3, runs, 3, "every sequence of 2–4 (5) runs out of 10 kinds, 3 value kinds"},
          {"cells", 2, cellsOrd, 3, "11 shapes × 10 families × 3 ranges"},
          {"errors", 1, errs, 3, "units and atoms"},
          {"bins-small", 3, binsSmall, 3, "every 𝕨 of up to 3 of 15 values, sorted or not, × 7 lists and 15 atoms"},
          {"bins", 3, binsLen, 3, "10² families × 22 × 8 lengths × 3 orders"},
          {"bins-unsorted", 3, binsUnsorted, 3, "one adjacent pair out of order at every position × 10 lengths × 10 families"},
          {"bins-cells", 3, binsCells, 3, "5 × 7 shapes × 10 families"},
          {"bins-wide", 3, binsWide, 3, "8 lengths of 𝕨 at the index widths × 7 types"}};
  return mainMC(argc, argv, c);
}
