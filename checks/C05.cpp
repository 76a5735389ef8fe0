// Selection and replication: ⊏ ⊑ / and /⁼.
#include "gen.hpp"
using namespace bq;
static Outcome o1(const string& g, const Val& x) { return outcomeOf([&]() { return p1(g, x); }); }
static Outcome o2(const string& g, const Val& w, const Val& x) { return outcomeOf([&]() { return p2(g, w, x); }); }
static void smallSelect(Ex& ex) { // every index list of up to 3 (4) items into every list of up to 3
  size_t n = ex.pick(4); int k = ex.pick(ex.thorough? 5 : 4); vector<Val> w; vector<Val> A; for (long i = -(long)n-1; i <= (long)n; i++) A.push_back(Val((double)i)); A.push_back(Val(0.5)); A.push_back(Val::chr('a')); A.push_back(Val(-0.0));
  for (int i = 0; i < k; i++) w.push_back(ex.of(A));
  for (int fam = 0; fam < FAM_N; fam++) { Val x = famArr(fam, {n}, 200, 3), W = Val::vec(w); if (fam==FAM_I8 || fam==FAM_BIT) star2(ex, "⊏", fnOf("⊏"), W, x, o2("⊏", W, x), 1); else cross2(ex, "⊏", fnOf("⊏"), W, x, o2("⊏", W, x), 0, 1); }
  if (k==1) for (int fam = 0; fam < FAM_N; fam++) for (Val W : {w[0], unitOf(w[0])}) { Val x = famArr(fam, {n}, 200, 3); all2(ex, "⊏", fnOf("⊏"), W, x, o2("⊏", W, x), 1, 1); all2(ex, "⊑", fnOf("⊑"), W, x, o2("⊑", W, x), 0, 1); Val x2 = famArr(fam, {n,3}, 200, 3); all2(ex, "⊏", fnOf("⊏"), W, x2, o2("⊏", W, x2), 0, 1); Val x0 = famArr(fam, {}, 200, 3); all2(ex, "⊏", fnOf("⊏"), W, x0, o2("⊏", W, x0), 0, 0); all2(ex, "⊑", fnOf("⊑"), W, x2, o2("⊑", W, x2), 0, 1); }
}
static vector<Val> indices(int pat, size_t n, size_t m) { // m indices into n
  vector<Val> r; uint64_t s = n*31+m;
  for (size_t i = 0; i < m; i++) {
    long k = pat==0? i%n : pat==1? (long)(n-1-i%n) : pat==2? -(long)(1+i%n) : pat==3? (long)(lcg(s)%n) : pat==4? (long)(lcg(s)%(2*n))-(long)n : pat==5? (long)(lcg(s)%std::min<size_t>(n, 2)) : pat==6? (long)(n-1) : (long)((i*7)%std::min<size_t>(n, 100));
    r.push_back(Val((double)k));
  }
  return r;
}
static void bigSelect(Ex& ex) {
  static const vector<size_t> N = {1,2,3,7,8,9,16,17,31,32,33,64,65,127,128,129,130,255,256,257,300,1000,33000}, M = {1,2,7,8,9,31,63,64,65,128,255,256,257,300,520,1100};
  size_t n = ex.of(N), m = ex.of(M); int fam = ex.pick(FAM_N), pat = ex.pick(8); if (n>1000 && fam>=FAM_MIX) return;
  if (m>300 && n>300 && !ex.thorough && fam!=FAM_I16 && fam!=FAM_BIT) return;
  static std::map<std::tuple<int,size_t>, Val> cache; auto& cx = cache[{fam, n}]; if (!cx.isArr()) cx = famArr(fam, {n}, 300, 5); const Val& x = cx;
  Val w = Val::vec(indices(pat, n, m)); cross2(ex, "⊏", fnOf("⊏"), w, x, o2("⊏", w, x), n<300? 1 : 0, n<300 && pat<2? 1 : 0);
  if (pat==3 && m<=300) for (long bad : {(long)n, -(long)n-1}) for (size_t at : {(size_t)0, m/2, m-1}) { vector<Val> v = w.it(); v[at] = Val((double)bad); Val W = Val::vec(v); for (auto& r : repsOf(W, 0)) call2(ex, "⊏", fnOf("⊏"), W, r, x, {}, o2("⊏", W, x)); ex.tick(); }
}
static void blockSelect(Ex& ex) { // index lists beyond the range-check blocks of 1<<14 bytes
  size_t m = ex.of(vector<size_t>{4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 20000}), n = ex.of(vector<size_t>{2, 100, 128, 200, 30000, 40000}); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8}); int pat = ex.of(vector<int>{2, 3, 4, 7});
  Val x = famArr(fam, {n}, 300, 5), w = Val::vec(indices(pat, n, m)); int bad = ex.pick(4);
  if (bad) { vector<Val> v = w.it(); v[bad==1? 0 : bad==2? m-1 : 8192%m] = Val(bad==2? -(double)n-1 : (double)n); w = Val::vec(v); }
  cross2(ex, "⊏", fnOf("⊏"), w, x, o2("⊏", w, x), 0, 0);
}
static void cellsSelect(Ex& ex) { // leading-axis cells of every size
  size_t n = ex.of(vector<size_t>{0,1,2,5,9,40}), cs = ex.of(vector<size_t>{0,1,2,3,4,5,6,7,8,9,12,15,16,17,24,25,31,32,33,40,63,64,65,128,129}); int fam = ex.pick(FAM_N), pat = ex.pick(6); size_t m = ex.of(vector<size_t>{0,1,2,5,9,64,65}); if (n==0 && m) m = 0;
  int form = ex.pick(2); if (form && (m>9 || fam%3)) return; if (!ex.thorough && cs>33 && m>9 && fam>FAM_BIT && pat>1) return;
  Val x = famArr(fam, form? Sh{n, cs, 1} : Sh{n, cs}, 300, 5); vector<Val> ix = m? indices(pat, n, m) : vector<Val>(); Val w = form? Val::arr({1, m}, ix) : Val::vec(ix);
  cross2(ex, "⊏", fnOf("⊏"), w, x, o2("⊏", w, x), 0, 0);
  if (m>0) { ix[m/2] = Val((double)n); Val W = Val::vec(ix); call2(ex, "⊏", fnOf("⊏"), W, {}, x, {}, o2("⊏", W, x)); }
  if (pat==0) all1(ex, "⊏", fnOf("⊏"), x, o1("⊏", x), 1), all1(ex, "⊑", fnOf("⊑"), x, o1("⊑", x), 1);
}
static void compound(Ex& ex) { // one index array per leading axis
  static const vector<Sh> S = {{3}, {2,3}, {3,2,2}, {4,0,2}, {3,70}, {2,3,2,2}}; const Sh& s = ex.of(S); size_t k = 1+ex.pick(std::min<size_t>(s.size()+1, 3)); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I32, FAM_F64, FAM_C16, FAM_NEST});
  vector<Val> w;
  for (size_t a = 0; a < k; a++) {
    double n = a<s.size()? s[a] : 1; vector<Val> A = {Val::vec({}), unitOf(Val(0)), Val::vec({Val(n-1)}), Val::vec({Val(0), Val(-1)}), Val::vec({Val(-n), Val(n-1), Val(0)}), Val::arr({2,1}, {Val(0), Val(-1)}), Val::vec({Val(n)}), Val(0)};
    vector<Val> r; for (size_t i = 0; i < n; i++) r.push_back(Val((double)i)); A.push_back(Val::vec(r)); if (n>2) A.push_back(Val::vec(vector<Val>(r.begin()+1, r.end()))); for (size_t i = 0; i < n; i++) r[i] = Val((double)i-n); A.push_back(Val::vec(r));
    w.push_back(ex.of(A));
  }
  Val x = famArr(fam, s, 100, 7), W = Val::vec(w); cross2(ex, "⊏", fnOf("⊏"), W, x, o2("⊏", W, x), 1, 1);
}
static void picks(Ex& ex) { // ⊑ with index lists and trees
  static const vector<Sh> S = {{}, {3}, {2,3}, {2,2,2}, {0,2}}; const Sh& s = ex.of(S); size_t k = ex.pick(4); vector<Val> w; for (size_t i = 0; i < k; i++) w.push_back(ex.of(vector<Val>{Val(0), Val(1), Val(2), Val(-1), Val(-2), Val(-3), Val(-4), Val(3), Val(0.5), Val::chr('a'), Val::vec({})}));
  int fam = ex.of(vector<int>{FAM_BIT, FAM_I16, FAM_F64, FAM_C8, FAM_NEST}); Val x = famArr(fam, s, 100, 7), W = Val::vec(w); int form = ex.pick(3);
  if (form==1) W = Val::vec({W, W}); if (form==2) W = Val::arr({1,1}, {Val::vec({W})});
  cross2(ex, "⊑", fnOf("⊑"), W, x, o2("⊑", W, x), 1, 1);
}
static void rows(Ex& ex) { // selection in every row: w⊸⊏˘x
  static const vector<size_t> H = {0,1,2,3,7,8,9,33,65}, C = {1,2,3,4,5,7,8,9,16,31,32,33,64,65,127,128,129,140};
  size_t h = ex.of(H), c = ex.of(C); int fam = ex.pick(FAM_N), pat = ex.pick(7); size_t m = ex.of(vector<size_t>{0,1,2,3,4,8,9,16,32,33,70}); if ((fam>=FAM_MIX || h>9) && (c>33 || m>16) && !ex.thorough) return; if (!ex.thorough && pat>2 && pat!=4 && fam!=FAM_I8 && fam!=FAM_BIT && fam!=FAM_C16) return;
  Val x = famArr(fam, {h, c}, 300, 5); vector<Val> ix = indices(pat, c, m); int bad = m && pat==3? ex.pick(3) : 0; if (bad==1) ix[m-1] = Val((double)c); if (bad==2) ix[0] = Val(-(double)c-1);
  Val w = Val::vec(ix); static BV rk; if (!rk) { rk = derive2("⎉", cb_inc(fnOf("⊏")), cb_mknum(1)); }
  if (h==0 && bad) return;
  Outcome o = outcomeOf([&]() { return rank2([&](const Val& a, const Val& b) { return p2("⊏", a, b); }, 1, 1, w, x); });
  cross2(ex, "⊏⎉1", rk, w, x, o, 0, 0);
  if (m==1 && !bad) { static BV rs; if (!rs) rs = derive2("⎉", cb_inc(fnOf("⊏")), toB(numsV({0,1}))); (void)rs; Outcome q = outcomeOf([&]() { return rank2([&](const Val& a, const Val& b) { return p2("⊏", a, b); }, 0, 1, w.it()[0], x); }); cross2(ex, "⊏⎉0‿1", rs, w.it()[0], x, q, 0, 0); }
  if (m==0) { static BV rf; if (!rf) rf = derive1("˘", cb_inc(fnOf("⊏"))); Outcome q = outcomeOf([&]() { return rank1([&](const Val& b) { return p1("⊏", b); }, -1, x); }); if (h) all1(ex, "⊏˘", rf, x, q, 1); }
}
static Val pattern(int p, size_t n) { // boolean lists of different densities and run structures
  vector<Val> r; uint64_t s = n+p; for (size_t i = 0; i < n; i++) { int b;
    switch (p) { case 0: b = 0; break; case 1: b = 1; break; case 2: b = i&1; break; case 3: b = lcg(s)%2; break; case 4: b = lcg(s)%200==0; break; case 5: b = lcg(s)%16!=0; break; case 6: b = (i/40)&1; break; case 7: b = (i/300)&1; break; case 8: b = i==n-1; break; case 9: b = i==0; break; case 10: b = i%64==63; break; case 11: b = lcg(s)%9==0; break; case 12: b = i>n/2? lcg(s)%3==0 : 0; break; default: b = lcg(s)%600==0 || i/64==5; }
    r.push_back(Val(b)); }
  return Val::vec(r);
}
static const int NPAT = 14;
static vector<size_t> whereLens(bool th) { vector<size_t> r = {1,2,7,8,9,63,64,65,127,128,129,130,191,192,200,255,256,257,511,600,1030,2000,4100}; if (th) for (size_t n : {3,4,5,6,10,16,17,31,32,33,62,66,100,193,300,1023,1024,1025,1984,1985,2047,2048,2049}) r.push_back(n); return r; }
static void where(Ex& ex) {
  size_t n = ex.of(whereLens(ex.thorough)); int p = ex.pick(NPAT); Val x = pattern(p, n);
  all1(ex, "/", fnOf("/"), x, o1("/", x), n<300? 2 : 0);
}
static void whereBig(Ex& ex) { // the three index widths
  size_t n = ex.of(vector<size_t>{32703, 32767, 32768, 32769, 32832, 33000, 40000, 65535, 65536, 65537, 70001, 131200}); int p = ex.pick(NPAT); Val x = pattern(p, n); call1(ex, "/", fnOf("/"), x, {}, o1("/", x)); ex.tick();
  if (n<41000) { call1(ex, "/", fnOf("/"), x, Rep{.elt=CE_BIT, .slice=5}, o1("/", x)); }
  Val v = famArr(n%2? FAM_I8 : FAM_I16, {n}, 200, 3); Outcome o = o2("/", x, v); call2(ex, "/", fnOf("/"), x, {}, v, {}, o); ex.tick();
}
static void smallWhere(Ex& ex) { // all short lists of counts
  int n = ex.pick(6); vector<Val> w; static const vector<Val> A = {0, 1, 2, 3, Val(-1), Val(0.5), Val::chr('a'), Val(130)}; for (int i = 0; i < n; i++) w.push_back(n<4 || ex.thorough? ex.of(A) : A[ex.pick(4)]);
  Val W = Val::vec(w); all1(ex, "/", fnOf("/"), W, o1("/", W), n<4? 2 : 1);
  for (int fam : {FAM_BIT, FAM_I8, FAM_F64, FAM_C16, FAM_NEST}) { Val x = famArr(fam, {(size_t)n}, 200, 4); cross2(ex, "/", fnOf("/"), W, x, o2("/", W, x), n<4? 1 : 0, n<4? 1 : 0); if (n<4) { Val x2 = famArr(fam, {(size_t)n, 2}, 200, 4); cross2(ex, "/", fnOf("/"), W, x2, o2("/", W, x2), 0, 0); } }
}
static void compress(Ex& ex) {
  size_t n = ex.of(whereLens(ex.thorough)); int p = ex.pick(NPAT), fam = ex.pick(FAM_N); if (n>300 && fam>=FAM_MIX && p>5) return;
  Val w = pattern(p, n), x = famArr(fam, {n}, 300, 5); cross2(ex, "/", fnOf("/"), w, x, o2("/", w, x), n<200? 1 : 0, n<200? 1 : 0);
}
static void compressCells(Ex& ex) {
  size_t n = ex.of(vector<size_t>{0,1,2,9,63,64,65,130}), cs = ex.of(vector<size_t>{0,1,2,3,4,7,8,9,16,17,33,64,65}); int p = ex.pick(NPAT), fam = ex.pick(FAM_N); if (n>9 && cs>9 && fam>=FAM_MIX) return;
  Val w = pattern(p, n), x = famArr(fam, {n, cs}, 300, 5); call2(ex, "/", fnOf("/"), w, {}, x, {}, o2("/", w, x)); cross2(ex, "/", fnOf("/"), w, x, o2("/", w, x), 0, n*cs<300? 0 : 0);
  if (n<10) { uint64_t s = n; vector<Val> c; for (size_t i = 0; i < n; i++) c.push_back(Val((double)(lcg(s)%4))); Val W = Val::vec(c); cross2(ex, "/", fnOf("/"), W, x, o2("/", W, x), 0, 0); }
}
static void countsWide(Ex& ex) { // counts in lists at which the type of the indices widens
  size_t n = ex.of(vector<size_t>{126,127,128,129,130,255,256,257,32766,32767,32768,32769,32770,40000,65535,65536,65537,70001}); int k = ex.pick(4), last = ex.pick(4); vector<Val> c; for (size_t i = 0; i < n; i++) c.push_back(Val((double)(i+1==n? last : k==0? (i%1000==0)*3 : k==1? i%3==0? 2 : 0 : k==2? (i+2>=n? 200 : 0) : (i+1)%128==0? 2 : 1)));
  Val w = Val::vec(c); for (Rep r : {Rep{}, Rep{.elt=CE_I16}, Rep{.elt=CE_F64}}) { call1(ex, "/", fnOf("/"), w, r, o1("/", w)); ex.tick(); } int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_F64, FAM_MIX}); Val x = famArr(fam, {n}, 300, 5); call2(ex, "/", fnOf("/"), w, {}, x, {}, o2("/", w, x)); ex.tick();
}
static void counts(Ex& ex) { // integer counts: dense, sparse, and large
  size_t n = ex.of(vector<size_t>{1,2,5,8,9,33,63,64,65,100,130,260,1000,5000}); int k = ex.pick(9); uint64_t s = n; vector<Val> c;
  for (size_t i = 0; i < n; i++) { uint64_t q = lcg(s); double v = k==0? q%3 : k==1? (q%20==0? 7 : 0) : k==2? (i==n/2? 300 : 0) : k==3? (i==n-1? 40000 : i%2) : k==4? (q%50==0? 130 : 1) : k==5? 2 : k==6? (i==0? 1000 : q%100==0) : k==7? q%129 : (i%7==0? 70 : 0); c.push_back(Val(v)); }
  Val w = Val::vec(c); if (n>1000 && k==7) return;
  all1(ex, "/", fnOf("/"), w, o1("/", w), n<100? 1 : 0);
  int fam = ex.pick(FAM_N); Val x = famArr(fam, {n}, 300, 5); cross2(ex, "/", fnOf("/"), w, x, o2("/", w, x), 0, n<100? 0 : 0);
}
static void constant(Ex& ex) { // one count for all
  double k = ex.of(vector<double>{0,1,2,3,4,5,6,7,8,9,10,12,15,16,17,20,24,31,32,33,36,40,48,63,64,65,66,72,100,127,128,129,130,192,200,255,256,257,300,1000,-1,0.5}); size_t n = ex.of(vector<size_t>{0,1,2,3,7,8,9,31,32,33,63,64,65,100,128,130,200}); int fam = ex.pick(FAM_N); if (k*n>9000 && fam>FAM_I8 && !ex.thorough) return;
  Val x = famArr(fam, {n}, 300, 5); all2(ex, "/", fnOf("/"), Val(k), x, o2("/", Val(k), x), 0, n<20? 2 : 0); Val u = unitOf(Val(k)); if (n<10) { all2(ex, "/", fnOf("/"), u, x, o2("/", u, x), 0, 0); Val x2 = famArr(fam, {n, 3}, 300, 5); all2(ex, "/", fnOf("/"), u, x2, o2("/", u, x2), 0, 0); }
}
static BV SLASHINV;
static Outcome countsOf(const Val& x) { return outcomeOf([&]() { if (x.rank()!=1) err(); long m = -1; for (auto& v : x.it()) { if (!isInt(v, 0)) err(); m = std::max(m, (long)v.n); } vector<double> r(m+1, 0); for (auto& v : x.it()) r[(long)v.n]++; vector<Val> o; for (double d : r) o.push_back(Val(d)); return Val::vec(o); }); }
static void smallInv(Ex& ex) { int n = ex.pick(ex.thorough? 8 : 6); vector<Val> v; static const vector<Val> A = {0, 1, 2, 5, Val(-1), Val(0.5), Val::chr('a'), Val(200)}; for (int i = 0; i < n; i++) v.push_back(A[ex.pick(n<4? 8 : 4)]); Val x = Val::vec(v); all1(ex, "/⁼", SLASHINV, x, countsOf(x), 2); }
static void bigInv(Ex& ex) { // runs, ranges and counts around the counter widths
  size_t n = ex.of(vector<size_t>{1,2,63,64,65,127,128,129,130,200,255,256,257,300,1000,1023,1025,4000,32767,32768,32769,40000,65535,65536,65537,70000}); int k = ex.pick(12); uint64_t s = n; vector<Val> c;
  for (size_t i = 0; i < n; i++) { uint64_t q = lcg(s); double v = k==0? i : k==1? 0 : k==2? 5 : k==3? q%2 : k==4? q%3 : k==5? q%100 : k==6? q%128 : k==7? q%30000 : k==8? i/10 : k==9? (i<n/2? 3 : 4+q%2) : k==10? (i%2? 127 : 126) : (i==n-1? 100000 : i%300); c.push_back(Val(v)); }
  Val x = Val::vec(c); for (auto& r : repsOf(x, n<300? 2 : 0)) { call1(ex, "/⁼", SLASHINV, x, r, countsOf(x)); ex.tick(); }
  if (n<5000) for (size_t at : {(size_t)0, n/2, n-1}) { vector<Val> d = c; d[at] = Val(-1); Val y = Val::vec(d); for (auto& r : repsOf(y, 0)) { call1(ex, "/⁼", SLASHINV, y, r, countsOf(y)); ex.tick(); } }
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C05"; c.assumptions = {"⊏ and / of an atom by an empty list, and ⊑ by an empty array of other rank than 1, are unspecified", "/⁼ counts every natural number whatever their order"};
  c.init = []() { cb_init(); for (auto g : {"⊏","⊑","/"}) fnOf(g); SLASHINV = fnOf("/⁼"); };
  c.perRun = gcEvery(500); c.after = sharedIntact;
  c.sc = {{"select-small", 3, smallSelect, 3, "every list of up to 3 (4) indices out of n+5 values into lists of 0–3 items × 10 families"},
          {"select", 3, bigSelect, 3, "23 lengths × 16 index counts × 10 families × 8 patterns, and every out-of-range position class"},
          {"select-blocks", 3, blockSelect, 3, "index lists around the 4096/8192/16384 block sizes × 6 lengths × 6 families, in and out of range"},
          {"select-cells", 3, cellsSelect, 3, "6 lengths × 25 cell sizes × 10 families × 6 patterns × 7 counts"},
          {"select-axes", 3, compound, 3, "6 shapes × every combination of 11 index arrays on up to 3 axes × 6 families"},
          {"pick", 3, picks, 3, "5 shapes × all index lists of up to 3 of 11 values × 3 nestings × 5 families"},
          {"select-rows", 3, rows, 3, "⊏⎉1, ⊏˘: 9 heights × 18 widths × 10 families × 7 patterns × 11 counts"},
          {"indices", 2, where, 3, "/ of 14 bit patterns × 23 (46) lengths in all representations"},
          {"indices-wide", 2, whereBig, 3, "/ and compress at lengths where the index type widens"},
          {"counts-small", 3, smallWhere, 3, "every list of up to 5 counts"},
          {"compress", 3, compress, 3, "14 bit patterns × 23 (46) lengths × 10 families × representations"},
          {"compress-cells", 3, compressCells, 3, "8 lengths × 13 cell sizes × 14 patterns × 10 families"},
          {"counts", 3, counts, 3, "9 count patterns × 14 lengths × 10 families"},
          {"counts-wide", 3, countsWide, 3, "18 lengths around the widths of index types × 4 patterns × 4 last counts"},
          {"replicate-constant", 3, constant, 3, "42 counts × 17 lengths × 10 families"},
          {"inverse-small", 3, smallInv, 3, "/⁼ of every list of up to 5 (7) of 8 values"},
          {"inverse", 2, bigInv, 3, "/⁼: 12 patterns × 26 lengths around the counter widths, negative at 3 positions"}};
  return mainMC(argc, argv, c);
}
