// Comparison, matching, ordering and hashing: one notion of equality and order, whatever the storage.
#include "dyad.hpp"
using namespace bq;
static BV find(const string& g) { return fnOf(g); }
static vector<Val> VALS;
static void addVals() {
  auto& v = VALS;
  vector<Val> at = {0, 1, -1, 2, 127, 128, 255, 256, 32768, -129, 0.5, Val(-0.0), Val(1e300), Val(2147483648.0), Val((double)INFINITY), Val(-(double)INFINITY), Val((double)NAN), Val::chr('a'), Val::chr('b'), Val::chr(0), Val::chr(255), Val::chr(256), Val::chr(0x10000)};
  v = at;
  for (auto& a : at) { v.push_back(unitOf(a)); v.push_back(Val::vec({a})); }
  vector<Val> few = {0, 1, 2, 300, 0.5, Val::chr('a'), Val::chr(300), Val((double)NAN)};
  for (auto& a : few) for (auto& b : few) v.push_back(Val::vec({a, b}));
  for (Sh s : vector<Sh>{{0}, {0,0}, {0,2}, {2,0}, {1,0}, {0,2,3}}) v.push_back(Val::arr(s, {}));
  for (Sh s : vector<Sh>{{3}, {4}, {1,3}, {3,1}, {2,2}, {4,1}, {1,1,4}, {2,2,1}, {1,2,2}}) {
    for (int k = 0; k < 3; k++) { vector<Val> it; for (size_t i = 0; i < prod(s); i++) it.push_back(k==0? Val((int)(i&1)) : k==1? Val((double)i*100) : Val::chr('a'+i)); v.push_back(Val::arr(s, it)); it.back() = k==2? Val::chr(0x400) : Val(-5.5); v.push_back(Val::arr(s, it)); }
  }
  // nested
  vector<Val> sub = {Val::vec({}), Val::vec({0}), Val::vec({1, 0}), Val::str("ab"), unitOf(Val(0)), unitOf(unitOf(Val(0))), Val::arr({1,2}, {0, 1}), Val(0), Val::vec({Val((double)NAN)}), Val::vec({Val::vec({Val(0), Val::str("c")})})};
  for (auto& a : sub) v.push_back(unitOf(a)), v.push_back(Val::vec({a}));
  for (auto& a : sub) for (auto& b : sub) v.push_back(Val::vec({a, b}));
  for (auto& a : sub) v.push_back(Val::arr({2,1}, {a, Val(3)}));
}
static bool hasNaN(const Val& v) { if (v.isNum()) return v.n!=v.n; if (v.isArr()) for (auto& x : v.it()) if (hasNaN(x)) return true; return false; }
static BV HASH, CMP;
static void values(Ex& ex) {
  const Val& w = ex.of(VALS); const Val& x = ex.of(VALS);
  star2(ex, "≡", fnOf("≡"), w, x, outcomeOf([&]() { return Val((int)matchV(w, x)); }), 1);
  star2(ex, "≢", fnOf("≢"), w, x, outcomeOf([&]() { return Val((int)!matchV(w, x)); }), 1);
  bool nan = hasNaN(w) || hasNaN(x); // ordering a NaN is left open
  Outcome o = outcomeOf([&]() { if (nan) unspec(); return Val(cmpV(w, x)); });
  star2(ex, "•Cmp", CMP, w, x, o, 1);
}
static void hashes(Ex& ex) { // equal values hash equally in every representation, and unequal values of the alphabet (almost) never do
  const Val& v = ex.of(VALS); int seed = ex.of(vector<int>{-1, 0, 12345});
  auto get = [&](const Val& val, const Rep& r) {
    BV b = toB(val, r), res; int rc = seed<0? cb_c1(HASH, b, &res) : cb_c2(HASH, cb_mknum(seed), b, &res);
    if (rc) ex.fail("•Hash of %s fails: %s", show(val).c_str(), cb_err());
    Val o = fromB(res); cb_dec(res); ex.op(); return o; };
  Val h; bool first = true; string r0;
  for (auto& r : repsOf(v, 2)) {
    Val g = get(v, r); ex.compared();
    if (first) { h = g; r0 = r.str(); first = false; }
    else if (!same(h, g)) ex.fail("•Hash %s is %s stored as %s but %s stored as %s", show(v).c_str(), show(h).c_str(), r0.c_str(), show(g).c_str(), r.str().c_str());
  }
  for (auto& u : VALS) if (!hasNaN(u) && matchV(u, v)) { Val g = get(u, {}); if (!same(h, g)) ex.fail("%s and %s match but their hashes differ", show(v).c_str(), show(u).c_str()); }
}
static void onediff(Ex& ex) { // two equal arrays, and the same with one item changed, between every two element types
  int fam = ex.pick(FAM_N); size_t n = ex.of(lens(ex.thorough)); int rk = ex.pick(2);
  size_t np = n<=33 || ex.thorough? n : 9; size_t pi = ex.pick(np+1);
  Sh sh = rk? Sh{1, n} : Sh{n};
  Val w = famArr(fam, sh, 2+n%5, 7);
  Val x = w; 
  if (pi) {
    size_t p = np==n? pi-1 : pi<=3? pi-1 : pi<=6? n-1-(pi-4) : pi==7? n/2 : pi==8? 62%n : 64%n;
    vector<Val> it = w.it(); Val& e = it[p];
    Val o = e.isNum()? (e.n==0? Val(1) : e.n==1? Val(0) : fam==FAM_I32? Val(e.n-1>=-2147483648.0? e.n-1 : e.n+1) : fam==FAM_F64? Val(e.n+0.25) : Val(e.n>=0? e.n-1 : e.n+1)) : e.isChr()? Val::chr(e.c^1) : Val(9);
    e = o; x = Val::arr(sh, it);
  }
  bool m = pi==0; int lv = n<70? 1 : 0;
  star2(ex, "≡", fnOf("≡"), w, x, outcomeOf([&]() { return Val((int)m); }), lv);
  star2(ex, "≢", fnOf("≢"), x, w, outcomeOf([&]() { return Val((int)!m); }), lv);
  star2(ex, "•Cmp", CMP, w, x, outcomeOf([&]() { return Val(cmpV(w, x)); }), lv);
  star2(ex, "•Cmp", CMP, x, w, outcomeOf([&]() { return Val(cmpV(x, w)); }), lv);
  // nested one level deeper
  call2(ex, "≡", fnOf("≡"), Val::vec({w, 1}), {}, Val::vec({x, 1}), {}, outcomeOf([&]() { return Val((int)m); }));
}
static void lexorder(Ex& ex) { // prefixes and shapes
  int fam = ex.pick(FAM_N); size_t n = ex.of(vector<size_t>{0,1,2,3,8,17,64}), m = ex.of(vector<size_t>{0,1,2,4,9,16,65}); int chg = ex.pick(3);
  Val a = famArr(fam, {80}, 50, 11); vector<Val> p(a.it().begin(), a.it().begin()+n), q(a.it().begin(), a.it().begin()+m);
  if (chg && n && m) { size_t c = std::min(n, m); (chg==1? p : q)[c-1] = famItem(fam, 3, 50); }
  Val w = Val::vec(p), x = Val::vec(q);
  star2(ex, "•Cmp", CMP, w, x, outcomeOf([&]() { return Val(cmpV(w, x)); }), 1);
  star2(ex, "≡", fnOf("≡"), w, x, outcomeOf([&]() { return Val((int)matchV(w, x)); }), 1);
}
static void mono(Ex& ex) { // monadic = ≠ ≡ ≢
  string g = ex.of(vector<string>{"=", "≠", "≡", "≢"}); const Val& v = ex.of(VALS);
  all1(ex, g, fnOf(g), v, outcomeOf([&]() { return p1(g, v); }), 2);
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C03"; fOf = find;
  c.assumptions = {"the ordering of a NaN is unspecified", "two handles of the same array containing a NaN may match"};
  c.init = []() {
    cb_init(); for (double d : NUMS) AB.push_back(Val(d)); for (uint32_t q : CHRS) AB.push_back(Val::chr(q));
    ALL = {"=","≠","<",">","≤","≥"}; for (auto& g : ALL) fOf(g); for (auto g : {"≡","≢"}) fnOf(g); HASH = fnOf("•Hash"); CMP = fnOf("•Cmp"); addVals();
  };
  c.perRun = gcEvery(3000); c.after = sharedIntact;
  c.sc = {{"scalar-pairs", 2, pairs, 3, "6 functions × 75² pairs × 4 forms × lengths 1,3,10 × all element types"},
          {"shapes", 3, shapes, 3, "6 functions × 15² shapes × 8² item kinds"},
          {"lengths", 3, lengths, 3, "6 functions × 7² families × lengths at the word boundaries × 3 forms"},
          {"values", 1, values, 3, "≡ ≢ •Cmp over all pairs of ≈310 atoms, lists, arrays and nested values × representations"},
          {"hash", 1, hashes, 3, "•Hash of ≈310 values in all representations, with and without seed"},
          {"one-difference", 3, onediff, 3, "10 families × lengths × every position of one difference × all pairs of element types"},
          {"prefix-order", 2, lexorder, 3, "10 families × prefixes of 7² lengths × 3 changes"},
          {"monadic", 1, mono, 3, "= ≠ ≡ ≢ on ≈310 values in all representations"}};
  return mainMC(argc, argv, c);
}
