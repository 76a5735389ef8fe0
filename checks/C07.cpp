// Searching: ⊐ ⊒ ∊ ⍷ with one and two arguments.
#include "gen.hpp"
using namespace bq;
static bool hasNaN(const Val& v) { if (v.isNum()) return v.n!=v.n; if (!v.isArr()) return false; for (auto& x : v.it()) if (hasNaN(x)) return true; return false; }
static Outcome o1(const string& g, const Val& x) { return outcomeOf([&]() { return p1(g, x); }); }
static Outcome o2(const string& g, const Val& w, const Val& x) { return outcomeOf([&]() { return p2(g, w, x); }); }
static const vector<string> SELF = {"⊐","⊒","∊","⍷"}, TWO = {"⊐","⊒","∊"};
static void selfSmall(Ex& ex) {
  static const vector<vector<Val>> A = {{0, 1, 2, 3}, {Val(-128), 127, 0, -1}, {Val(-32768), 32767, 128, -129}, {Val(-2147483648.0), 2147483647.0, 32768, 65536}, {Val(0.5), Val(-0.0), 0, Val((double)INFINITY)}, {Val::chr(0), Val::chr('a'), Val::chr(255), Val::chr(128)}, {Val::chr('a'), Val::chr(256), Val::chr(0xFFFF), Val::chr(0x10FFFF)}, {0, Val::chr('a'), Val::vec({0}), Val::vec({})}, {Val::str("ab"), Val::vec({Val::chr('a'), Val(1)}), unitOf(Val(0)), Val(0)}};
  int n = ex.pick(ex.thorough? 9 : 7); const auto& a = A[ex.pick(A.size())]; vector<Val> v; for (int i = 0; i < n; i++) v.push_back(a[ex.pick(n<6? 4 : 3)]); Val x = Val::vec(v); for (auto& g : SELF) all1(ex, g, fnOf(g), x, o1(g, x), n<5? 2 : 0);
}
static Val pat(int p, size_t n, int fam) { // lists with controlled repetition
  uint64_t s = n*5+p; vector<Val> v; for (size_t i = 0; i < n; i++) { uint64_t q = lcg(s); v.push_back(famItem(fam, p==0? q : p==1? q%2 : p==2? q%5 : p==3? q%100 : p==4? i : p==5? 0 : p==6? i/3 : p==7? (i==n-1? 7 : 1) : p==8? (i==0? 7 : 1) : p==9? n-1-i : p==10? (i>n/2? 3 : q%7+(i&1)) : q%(n+1), 0)); }
  return Val::vec(v);
}
static const int NP = 12;
static Val sortedOf(const Val& x) { return p1("∧", x); }
static void selfLen(Ex& ex) {
  static const vector<size_t> N = {1,2,3,7,8,9,11,12,13,15,16,17,19,20,21,31,32,33,63,64,65,127,128,129,130,200,255,256,257,300,520}; size_t n = ex.of(N); int fam = ex.pick(FAM_N), p = ex.pick(NP), so = ex.pick(3); Val x = pat(p, n, fam); if (so==1) x = sortedOf(x); if (so==2) x = p1("∨", x);
  for (auto& g : SELF) all1(ex, g, fnOf(g), x, o1(g, x), n<140? 2 : 1);
}
static void selfBig(Ex& ex) {
  size_t n = ex.of(vector<size_t>{1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 4100, 32767, 32768, 32769, 65535, 65536, 66000}); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8, FAM_C16, FAM_C32}), p = ex.pick(NP); if (!ex.thorough && n>5000 && (fam==FAM_F64 || fam==FAM_C32) && p>4) return;
  Val x = pat(p, n, fam); for (auto& g : SELF) { call1(ex, g, fnOf(g), x, {}, o1(g, x)); ex.tick(); } if (p<4) { Val y = sortedOf(x); for (auto& g : SELF) { call1(ex, g, fnOf(g), y, Rep{.flags=2}, o1(g, y)); ex.tick(); } }
}
static void narrow(Ex& ex) { // 4-byte keys in ranges around five times the length, far apart high bytes
  size_t n = ex.of(vector<size_t>{11, 12, 13, 20, 100, 300}); long range = ex.of(vector<long>{10, 49, 50, 51, 59, 60, 61, 65, 100, 499, 500, 501, 1500, 1501, 65536, 65537, 1<<24, 2000000000}); double base = ex.of(vector<double>{0, -25, 40000, -2147483648.0}); int p = ex.pick(3); uint64_t s = n+range; vector<Val> v;
  for (size_t i = 0; i < n; i++) v.push_back(Val(base+(double)(p==0? lcg(s)%range : p==1? (i%2? 0 : range-1) : (lcg(s)%4)*(range/4)+(i%3))));
  Val x = Val::vec(v); for (auto& g : SELF) for (auto& r : repsOf(x, 0)) { call1(ex, g, fnOf(g), x, r, o1(g, x)); ex.tick(); }
}
static void onePair(Ex& ex) { // all values distinct except one pair, at every pair of positions
  int fam = ex.of(vector<int>{FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8, FAM_C16, FAM_C32, FAM_MIX, FAM_NEST}); size_t n = ex.of(vector<size_t>{3, 9, 12, 20, 24}); size_t i = ex.pick(n-1), j = i+1+ex.pick(n-1-i);
  vector<Val> v; for (size_t k = 0; k < n; k++) v.push_back(famItem(fam, k*(fam==FAM_I16? 5 : 1), 0)); v[j] = v[i]; Val x = Val::vec(v); for (auto& g : SELF) for (auto& r : repsOf(x, 0)) { call1(ex, g, fnOf(g), x, r, o1(g, x)); ex.tick(); }
}
static Val cellArr(int fam, Sh s, size_t range, uint64_t seed) { // cells drawn from `range` different ones
  size_t n = s[0], cs = prod(s, 1); vector<vector<Val>> pool; for (size_t k = 0; k < range; k++) { uint64_t q = (k/2+3)*7919; vector<Val> c; for (size_t i = 0; i < cs; i++) c.push_back(famItem(fam, lcg(q)>>3, 100)); if (k%2 && cs) c[(k*5+seed)%cs] = famItem(fam, (k*37)%11, 100); pool.push_back(c); }
  vector<Val> it; uint64_t t = seed*77+1; for (size_t i = 0; i < n; i++) { auto& c = pool[lcg(t)%range]; it.insert(it.end(), c.begin(), c.end()); } return Val::arr(s, it);
}
static const vector<size_t> CS = {0,1,2,3,4,5,6,7,8,9,11,15,16,17,24,31,32,33,40,61,62,63,64,65};
static void selfCells(Ex& ex) {
  int fam = ex.pick(FAM_N); size_t cs = ex.of(CS); if (fam!=FAM_BIT && cs>17) return; size_t n = ex.of(vector<size_t>{0,1,2,3,7,8,12,20,33,70}); size_t range = ex.of(vector<size_t>{1, 2, 6, 40}); int form = ex.pick(2); if (form && (n>8 || cs==0)) return;
  Val x = cellArr(fam, form? Sh{n, 1, cs} : Sh{n, cs}, range, 3); for (auto& g : SELF) all1(ex, g, fnOf(g), x, o1(g, x), n<10? 1 : 0);
}
// --- two arguments
static void twoSmall(Ex& ex) { // every pair of short lists
  static const vector<vector<Val>> A = {{0, 1, 2}, {Val(-128), 127, 200}, {Val(0.5), Val(-0.0), 0}, {Val::chr('a'), Val::chr(255), Val::chr(256)}, {0, Val::chr('a'), Val::vec({Val(0)})}, {Val::chr(0), 0, Val::str("a")}, {Val(-2147483648.0), 2147483647.0, Val(1e15)}};
  const auto& a = A[ex.pick(A.size())]; int n = ex.pick(4), m = ex.pick(ex.thorough? 5 : 4); vector<Val> w, x; for (int i = 0; i < n; i++) w.push_back(a[ex.pick(3)]); for (int i = 0; i < m; i++) x.push_back(a[ex.pick(3)]);
  Val W = Val::vec(w), X = Val::vec(x); for (auto& g : TWO) cross2(ex, g, fnOf(g), W, X, o2(g, W, X), 0, 0); if (m==1) for (auto& g : TWO) for (Val q : {x[0], unitOf(x[0])}) { all2(ex, g, fnOf(g), g=="∊"? q : W, g=="∊"? W : q, o2(g, g=="∊"? q : W, g=="∊"? W : q), 1, 1); }
}
static Val drawn(const Val& src, const Val& other, size_t m, int mode, uint64_t seed) { vector<Val> r; uint64_t s = seed; for (size_t i = 0; i < m; i++) { uint64_t q = lcg(s); bool hit = mode==0? true : mode==1? q%2 : mode==2? q%17==0 : false; const auto& p = hit && src.ia()? src.it() : other.it(); r.push_back(p[(q>>5)%p.size()]); } return Val::vec(r); }
static void twoLen(Ex& ex) {
  static const vector<size_t> N = {1,2,3,4,5,8,9,15,16,17,20,31,32,33,34,64,65,127,128,129,256,257,300}, M = {0,1,2,3,4,6,7,15,16,17,18,20,64,65,130,511,512,600};
  int fw = ex.pick(FAM_N), fx = ex.pick(FAM_N); if (!ex.thorough && fw!=fx && (fw>=FAM_MIX || fx>=FAM_MIX || fw/5!=fx/5)) return; size_t n = ex.of(N), m = ex.of(M); int mode = ex.pick(3); if (m>100 && n>100 && mode!=1) return;
  Val w = pat(mode==2? 4 : mode==1? 3 : 0, n, fw), oth = famArr(fx, {40}, 0, 5), x = drawn(fw==fx || mode==1? w : oth, oth, m, mode, n+m); if (fw!=fx && mode!=1) x = drawn(oth, oth, m, 0, n+m);
  if (hasNaN(w) || hasNaN(x)) return;
  for (auto& g : TWO) { const Val& a = g=="∊"? x : w; const Val& b = g=="∊"? w : x; cross2(ex, g, fnOf(g), a, b, o2(g, a, b), n<70 && m<20? 1 : 0, n<70 && m<20? 1 : 0); if (n>m) continue; const Val& c = b; const Val& d = a; if (g!="∊" && d.ia()<200 && c.ia()<200) call2(ex, g, fnOf(g), c, {}, d, {}, o2(g, c, d)); }
}
static void oneAnywhere(Ex& ex) { // the searched value only at one position
  int fam = ex.pick(FAM_N); if (fam==FAM_BIT) { } size_t n = ex.of(vector<size_t>{1,2,7,8,9,16,17,31,32,33,34,63,64,65,66,127,128,129,200}); if (fam>=FAM_MIX && n>70) return; size_t at = ex.pick(n+1); int form = ex.pick(4); // item, unit, 1 item, 2 items
  vector<Val> v; for (size_t i = 0; i < n; i++) v.push_back(famItem(fam, fam==FAM_BIT? 0 : i*2%90, 100)); Val needle = famItem(fam, fam==FAM_BIT? 1 : 95, 100); if (at<n) v[at] = needle; Val w = Val::vec(v), x = form==0? needle : form==1? unitOf(needle) : form==2? Val::vec({needle}) : Val::vec({needle, v[0]});
  for (auto& g : TWO) { const Val& a = g=="∊"? x : w; const Val& b = g=="∊"? w : x; Outcome o = o2(g, a, b); for (auto& r : repsOf(w, n<70? 2 : 0)) { if (g=="∊") call2(ex, g, fnOf(g), a, {}, b, r, o); else call2(ex, g, fnOf(g), a, r, b, {}, o); } ex.tick(); }
}
static void twoBig(Ex& ex) { // table and hash sizes
  size_t n = ex.of(vector<size_t>{1, 4, 30, 255, 256, 257, 1000, 1023, 1024, 1025, 32766, 32767, 32768, 65536, 66000}), m = ex.of(vector<size_t>{1, 5, 1000, 1024, 4100, 33000}); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8, FAM_C16, FAM_C32}); int p = ex.pick(3); if (n*m>50000000 && p) return; if (!ex.thorough && n+m>60000 && p==2) return;
  Val w = pat(p==0? 0 : p==1? 4 : 3, n, fam), oth = famArr(fam, {500}, 0, 9), x = drawn(w, oth, m, 1, n+m); for (auto& g : TWO) { const Val& a = g=="∊"? x : w; const Val& b = g=="∊"? w : x; call2(ex, g, fnOf(g), a, {}, b, {}, o2(g, a, b)); ex.tick(); }
}
static void sameArr(Ex& ex) { // both arguments the same object
  int fam = ex.pick(FAM_N), p = ex.pick(4); size_t n = ex.of(vector<size_t>{2, 9, 20, 40, 300}); bool mat = ex.flag(); Val w = pat(p, n, fam); if (mat) { w = cellArr(fam, {n, 3}, 5, 1); }
  for (auto& g : TWO) { Outcome o = o2(g, w, w); for (auto& r : repsOf(w, 1)) { BV b = toB(w, r), res; int rc = cb_c2(fnOf(g), cb_inc(b), cb_inc(b), &res); judge(ex, strf("%s %s (itself) [%s]", show(w).c_str(), g.c_str(), r.str().c_str()), rc, res, o); unchanged(ex, "searching "+show(w)+" in itself", b, w, "itself"); cb_dec(b); ex.tick(); } }
}
static void twoCells(Ex& ex) { // cells of every width against cells of the same and other element types
  int fw = ex.pick(FAM_N), fx = ex.of(vector<int>{-1, FAM_BIT, FAM_I8, FAM_I16, FAM_C16, FAM_NEST}); if (fx<0) fx = fw; size_t cs = ex.of(CS); if (fw!=FAM_BIT && cs>17) return; size_t n = ex.of(vector<size_t>{0,1,2,9,40}); Sh lead = ex.of(vector<Sh>{{}, {0}, {1}, {5}, {2,3}, {40}});
  Val w = cellArr(fw, {n, cs}, 6, 3); Val big = cellArr(fx, {prod(lead), cs}, 12, 5); Val x = Val::arr(concat(lead, {cs}), big.it()); if (fw==fx && n && prod(lead)) { auto it = x.it(); for (size_t i = 0; i < cs; i++) it[i] = w.it()[(n-1)*cs+i]; x = Val::arr(x.sh(), it); }
  for (auto& g : TWO) { const Val& a = g=="∊"? x : w; const Val& b = g=="∊"? w : x; cross2(ex, g, fnOf(g), a, b, o2(g, a, b), n<10? 1 : 0, n<10? 1 : 0); }
}
static void shapesTwo(Ex& ex) { // cell shapes that differ, ranks too low, rank 3
  static const vector<Sh> S = {{}, {3}, {0}, {2,3}, {3,2}, {2,2}, {2,0}, {0,2}, {2,2,3}, {3,2,2}, {2,1,2,2}}; Val w = famArr(FAM_I8, ex.of(S), 2, 1), x = famArr(ex.flag()? FAM_I8 : FAM_C8, ex.of(S), 2, 2); for (auto& g : TWO) all2(ex, g, fnOf(g), w, x, o2(g, w, x), 1, 1); for (const Val& a : {Val(2), Val::chr('a')}) for (auto& g : TWO) { all2(ex, g, fnOf(g), w, a, o2(g, w, a), 1, 0); all2(ex, g, fnOf(g), a, x, o2(g, a, x), 0, 1); }
}
static void cellsExtreme(Ex& ex) { // constant cells against cells with one extreme element at each position
  int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8, FAM_C16, FAM_C32}); static const vector<vector<size_t>> W = {{1,7,8,9,15,16,17,31,32,33,59,60,61,62,63,64,65,127,128,129}, {1,2,3,4,5,6,7,8,9,15,16,17}, {1,2,3,4,5,8}, {1,2,3,4}, {1,2,3}, {1,2,3,4,5,6,7,8,9,16}, {1,2,3,4,5,8}, {1,2,3,4}};
  size_t cs = ex.of(W[fam]); size_t at = ex.pick(cs); static const vector<vector<Val>> X = {{0, 1}, {0, Val(-128), 127, -1, 1}, {0, Val(-32768), 32767, -1, 256}, {0, Val(-2147483648.0), 2147483647.0, -1, 65536}, {0, Val(-0.0), Val((double)INFINITY), Val(-(double)INFINITY), Val(4.9e-324)}, {Val::chr(0), Val::chr(255), Val::chr(128)}, {Val::chr(0), Val::chr(0xFFFF), Val::chr(0x8000)}, {Val::chr(0), Val::chr(0x10FFFF), Val::chr(0x8000)}};
  const auto& a = X[fam]; int base = ex.pick(a.size()), e = ex.pick(a.size()); if (e==base) return; size_t reps = ex.of(vector<size_t>{2, 9, 40});
  vector<Val> cB(cs, a[base]), cE = cB; cE[at] = a[e]; vector<Val> cF = cB; cF[(at+1)%cs] = a[e]; vector<Val> it, jt; auto add = [](vector<Val>& t, const vector<Val>& c) { t.insert(t.end(), c.begin(), c.end()); };
  for (size_t i = 0; i < reps; i++) add(it, i%2? cE : cB); for (size_t i = 0; i < reps; i++) add(jt, i%3==0? cE : i%3==1? cF : cB); Val x = Val::arr({reps, cs}, it), w = Val::arr({reps, cs}, jt), w1 = Val::arr({3, cs}, [&]() { vector<Val> t; add(t, cB); add(t, cB); add(t, cF); return t; }());
  for (auto& g : SELF) for (const Val& y : {x, w}) { call1(ex, g, fnOf(g), y, {}, o1(g, y)); ex.tick(); }
  Val one = Val::arr({cs}, cE); for (auto& g : TWO) for (const Val& y : {w, w1}) for (const Val& z : {x, one}) { const Val& p = g=="∊"? z : y; const Val& q = g=="∊"? y : z; call2(ex, g, fnOf(g), p, {}, q, {}, o2(g, p, q)); ex.tick(); }
}
// --- find
static void findAll(Ex& ex, const Val& w, const Val& x, int lw, int lx) { // boxed storage of 𝕩 or 𝕨 goes to the runtime, unless 𝕨 is a unit
  Outcome o = o2("⍷", w, x); ex.outcome(o.err? 1 : hashV(o.v)); bool unit = w.rank()==0;
  auto keep = [&](const Val& v, int l) { vector<Rep> r; for (auto& q : repsOf(v, l)) if (unit || !v.isArr() || q.elt!=CE_B) r.push_back(q); return r; };
  auto rw = keep(w, lw), rx = keep(x, lx); for (auto& a : rw) for (auto& b : rx) { call2(ex, "⍷", fnOf("⍷"), w, a, x, b, o); ex.tick(); }
}
static void findSmall(Ex& ex) { int n = ex.pick(4), m = ex.pick(ex.thorough? 9 : 7); int al = ex.pick(4); static const vector<vector<Val>> A = {{0, 1}, {Val::chr('a'), Val::chr('b')}, {Val(0.5), Val(-0.0)}, {300, Val(-5)}}; vector<Val> w, x; for (int i = 0; i < n; i++) w.push_back(A[al][ex.pick(2)]); for (int i = 0; i < m; i++) x.push_back(A[al][ex.pick(2)]); Val W = Val::vec(w), X = Val::vec(x); if (n && m) findAll(ex, W, X, 1, 1); if (m) { Val e = w.empty()? x[0] : w[0]; for (Val q : {e, unitOf(e)}) findAll(ex, q, X, 1, 1); } }
static void findLen(Ex& ex) { // rare and common matches at every alignment
  int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8, FAM_C16, FAM_C32}); size_t n = ex.of(vector<size_t>{1,2,3,4,5,8,9,17,40}), m = ex.of(vector<size_t>{1,8,16,17,33,63,64,65,66,100,129,200,400}); int p = ex.pick(5); vector<Val> x, w; uint64_t s = n*m;
  for (size_t i = 0; i < n; i++) w.push_back(famItem(fam, p==0? 0 : p==1? i%2 : i, 0)); for (size_t i = 0; i < m; i++) x.push_back(famItem(fam, p==0? i%40==7 : p==1? i%2 : p==2? lcg(s)%3 : p==3? (lcg(s)%30==0? 0 : 5) : i%(n+1), 0)); if (p==3) for (size_t at : {m/3, m/2}) if (at+n<=m) for (size_t i = 0; i < n; i++) x[at+i] = w[i];
  Val W = Val::vec(w), X = Val::vec(x); findAll(ex, W, X, n<9? 1 : 0, m<130? 1 : 0);
  if (m<70 && n<6) { vector<Val> two = x; two.insert(two.end(), x.rbegin(), x.rend()); Val M = Val::arr({2, m}, two); findAll(ex, W, M, 0, 1); }
  if (p==2 && n<4) { int fo = (fam+1)%8; Val Y = famArr(fo, {n}, 3, 4); findAll(ex, Y, X, 0, 0); }
}
static void findShapes(Ex& ex) { static const vector<Sh> S = {{}, {0}, {1}, {2}, {3}, {0,2}, {2,0}, {2,3}, {1,4}, {2,2,3}, {2,0,3}}; const Sh& a = ex.of(S); const Sh& b = ex.of(S); int fam = ex.of(vector<int>{FAM_BIT, FAM_I16, FAM_C8}); Val w = famArr(fam, a, 2, 1), x = famArr(fam, b, 2, 2); Outcome o = o2("⍷", w, x); bool native = o.err || a.empty() || x.ia()==0 || (a.size()==1 && b.size()<=2); if (!native) return; findAll(ex, w, x, 1, 1); }
int main(int argc, char** argv) {
  mc::Config c; c.property = "C07"; c.assumptions = {"searching for or among NaNs is unspecified", "𝕨⍷𝕩 with 𝕨 of rank 2 or more, or nested arguments, is implemented only by the BQN runtime and not covered"};
  c.init = []() { cb_init(); for (auto& g : SELF) fnOf(g); };
  c.perRun = gcEvery(500); c.after = sharedIntact;
  c.sc = {{"self-small", 4, selfSmall, 3, "every list of up to 6 (8) of 4 values in 9 alphabets"},
          {"self-lengths", 3, selfLen, 3, "31 lengths × 10 families × 12 patterns × unsorted, ascending, descending"},
          {"self-big", 3, selfBig, 3, "15 lengths at table and index widths × 8 types × 12 patterns"},
          {"self-range", 3, narrow, 3, "6 lengths × 18 ranges × 4 offsets"},
          {"self-one-pair", 3, onePair, 3, "the only equal pair at every two positions × 9 families × 5 lengths"},
          {"self-cells", 3, selfCells, 3, "24 cell sizes × 10 lengths × 10 families × 4 repetitions"},
          {"two-small", 4, twoSmall, 3, "every pair of lists of up to 3 of 3 values in 7 alphabets"},
          {"two-lengths", 3, twoLen, 3, "family pairs × 23 × 18 lengths × 3 hit rates"},
          {"two-one-hit", 3, oneAnywhere, 3, "the searched item at every position or missing × 19 lengths × 10 families"},
          {"two-big", 3, twoBig, 3, "15 × 6 lengths at table and index widths × 8 types"},
          {"two-same", 3, sameArr, 3, "an array searched in itself"},
          {"two-cells", 3, twoCells, 3, "24 cell sizes × 5 × 6 shapes × 10 × 6 families"},
          {"cells-extreme", 3, cellsExtreme, 3, "constant cells against one extreme element at every position, cell widths up to 129 bits, 8 types"},
          {"two-shapes", 2, shapesTwo, 3, "all pairs of 11 shapes"},
          {"find-small", 4, findSmall, 3, "every pair of lists of up to 3 and 6 (8) of 2 values"},
          {"find-lengths", 3, findLen, 3, "9 × 13 lengths × 8 types × 5 patterns"},
          {"find-shapes", 2, findShapes, 3, "all pairs of 11 shapes, where native"}};
  return mainMC(argc, argv, c);
}
