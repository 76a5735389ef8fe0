// Undo: the inverses the system implements itself, and Repeat with negative counts.
#include "gen.hpp"
using namespace bq;
static BV undo(BV f) { BV d; if (cb_m1(fnOf("⁼"), cb_inc(f), &d)) _exit(4); return d; }
static BV bindL(const Val& w, BV f, const Rep& r = {}) { BV d; if (cb_m2(fnOf("⊸"), toB(w, r), cb_inc(f), &d)) _exit(4); return d; }
static Val filled(const Val& v) { if (!v.isArr()) return v; bool n = true, c = true; for (auto& x : v.it()) { n&= x.isNum(); c&= x.isChr(); } return n? v.withFill(Val(0)) : c? v.withFill(Val::chr(' ')) : v; }
static size_t at(const Sh& sh, const Sh& ix) { size_t r = 0; for (size_t i = 0; i < sh.size(); i++) r = r*sh[i]+ix[i]; return r; }
template<class Fn> static void everyIndex(const Sh& sh, Fn f) { size_t n = prod(sh); Sh ix(sh.size()); for (size_t k = 0; k < n; k++) { size_t q = k; for (size_t i = sh.size(); i--;) { ix[i] = q%sh[i]; q/= sh[i]; } f(ix); } }
static Val transInv(const Val& x) { if (!x.isArr()) err(); size_t r = x.rank(); if (r<=1) return x; Sh s; s.push_back(x.sh()[r-1]); for (size_t i = 0; i+1 < r; i++) s.push_back(x.sh()[i]); vector<Val> v(x.ia()); everyIndex(s, [&](const Sh& ix) { Sh j(ix.begin()+1, ix.end()); j.push_back(ix[0]); v[at(s, ix)] = x.it()[at(x.sh(), j)]; }); return Val::arr(s, v); }
static Val transInvW(const Val& w, const Val& x) { // the y with 𝕨⍉y ≡ 𝕩: axis i of y is axis p[i] of 𝕩
  if (!x.isArr()) err(); size_t r = x.rank(); vector<size_t> p; if (!w.isArr()) { if (r<1 || !isInt(w, 0, r-1)) err(); p = {(size_t)w.n}; } else { if (w.rank()>1 || w.ia()>r) err(); for (auto& e : w.it()) { if (!isInt(e, 0, r-1)) err(); for (size_t q : p) if (q==(size_t)e.n) err(); p.push_back(e.n); } }
  for (size_t a = 0; a < r; a++) if (std::find(p.begin(), p.end(), a)==p.end()) p.push_back(a);
  Sh s(r); for (size_t i = 0; i < r; i++) s[i] = x.sh()[p[i]]; vector<Val> v(x.ia()); everyIndex(s, [&](const Sh& ix) { Sh j(r); for (size_t i = 0; i < r; i++) j[p[i]] = ix[i]; v[at(s, ix)] = x.it()[at(x.sh(), j)]; }); return Val::arr(s, v);
}
static Val rotInv(const Val& w, const Val& x) { auto neg = [](const Val& a) { if (!a.isNum()) err(); return Val(-a.n); }; if (!x.isArr() || x.rank()<1) err(); if (w.isNum()) return p2("⌽", neg(w), x); if (!w.isArr()) err(); if (w.rank()>1) err(); vector<Val> v; for (auto& e : w.it()) v.push_back(neg(e)); return p2("⌽", Val::arr(w.sh(), v).withFill(Val(0)), x); }
static Val inv1(const string& g, const Val& x) {
  if (g=="-") return p1("-", x); if (g=="⋆") return perv1([](const Val& a) { return s1("log", a); }, x); if (g=="⌽") return p1("⌽", x); if (g=="⍉") return transInv(x);
  if (g=="<") { if (!x.isArr() || x.rank()) err(); return x.it()[0]; } if (g=="⋈") { if (!x.isArr() || x.rank()!=1 || x.ia()!=1) err(); return x.it()[0]; } if (g=="≍") { if (!x.isArr() || x.rank()==0 || x.sh()[0]!=1) err(); Sh s(x.sh().begin()+1, x.sh().end()); return Val::arr(s, x.it()); }
  if (g=="/") { if (!x.isArr() || x.rank()!=1) err(); double m = -1; for (auto& e : x.it()) { if (!e.isNum() || e.n<0 || e.n!=std::floor(e.n)) err(); m = std::max(m, e.n); } vector<Val> v((size_t)(m+1), Val(0)); for (auto& e : x.it()) v[(size_t)e.n].n++; return Val::vec(v); }
  abort();
}
static const vector<const char*> M = {"-", "⌽", "⍉", "<", "⋈", "≍", "/"};
static const vector<Sh> SH = {{}, {0}, {1}, {2}, {3}, {8}, {1,1}, {1,3}, {3,1}, {2,2}, {2,3}, {5,3}, {8,8}, {9,7}, {16,4}, {3,0}, {0,3}, {1,0}, {2,2,2}, {2,3,4}, {1,2,3}, {3,1,2}, {3,2,1}, {2,0,3}, {2,1,2,3}, {65}, {33,2}, {2,33}, {64,3}, {3,64}, {20,20}};
static const vector<int> FAMS = {FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8, FAM_C16, FAM_C32, FAM_MIX, FAM_NEST};
static void monadic(Ex& ex) {
  string g = ex.of(M); int si = ex.pick(SH.size()+3), fam = ex.of(FAMS); if (g=="/" && (fam==FAM_I32 || fam==FAM_F64)) fam = FAM_I16; Val x = si>=(int)SH.size()? si==(int)SH.size()? famItem(fam, 9, 0) : si==(int)SH.size()+1? unitOf(famItem(fam, 4, 0)) : Val::vec({famArr(fam, {2}, 100, 1)}) : filled(famArr(fam, SH[si], 100, si+1)); BV u = undo(fnOf(g));
  Outcome e = outcomeOf([&]() { return inv1(g, x); }); if (g=="/" && x.isArr() && x.ia()==0 && !(x.fill() && x.fill()->isNum())) e.unspec = !e.err, e.err = false; all1(ex, g+"⁼", u, x, e, 2);
  // undoing what it did
  if (g!="/") { Outcome d = outcomeOf([&]() { p1(g, x); if ((g=="≍" || g=="⍉") && !x.isArr()) return unitOf(x); return x; }); if (!d.err && !d.unspec) for (auto& r : repsOf(x, 1)) { BV q, y; if (!cb_c1(fnOf(g), toB(x, r), &q)) { int rc = cb_c1(u, q, &y); judge(ex, g+"⁼ "+g+" "+show(x), rc, y, d); } } }
  cb_dec(u);
}
static void dyadic(Ex& ex) {
  static const vector<Val> W = {0, 1, 2, 3, -1, -2, 7, -100, 0.5, 1e10, Val::chr('a'), numsV({0}), numsV({1}), numsV({-1}), numsV({0, 1}), numsV({1, 0}), numsV({1, 2}), numsV({2, 0}), numsV({2, 1, 0}), numsV({1, 2, 0}), numsV({0, 2, 1}), numsV({2, 0, 1}), numsV({0, 0}), numsV({3, 1}), numsV({3, 1, 0, 2}), numsV({2, 3, 1, 0}), numsV({1, 1, 1}), numsV({0.5}), Val::vec({}).withFill(Val(0)), unitOf(Val(1)), unitOf(Val(0)), Val::arr({1,1}, {0}), Val::vec({Val::chr('a')}), Val::str("ab"), numsV({-2, 5}), numsV({1, 0, 0, 0, 0})};
  const char* g = ex.of(vector<const char*>{"⌽", "⍉"}); const Val& w = ex.of(W); int si = ex.pick(SH.size()+1); int fam = ex.of(FAMS); Val x = si==(int)SH.size()? famItem(fam, 9, 0) : filled(famArr(fam, SH[si], 100, si+1)); F2 inv = *g==*"⌽" && string(g)=="⌽"? F2(rotInv) : F2(transInvW); Outcome e = outcomeOf([&]() { return inv(w, x); });
  if (string(g)=="⌽" && w.isArr() && (w.rank()==0)) { e = outcomeOf([&]() { return rotInv(w.it()[0], x); }); }
  if (string(g)=="⍉" && w.isArr() && w.rank()==0 && !e.err) { }
  BV u = undo(fnOf(g)); cross2(ex, string(g)+"⁼", u, w, x, e, 1, 1); cb_dec(u);
  for (auto& r : repsOf(w, 0)) { BV b = bindL(w, fnOf(g), r), v = undo(b); call1(ex, "("+show(w)+"⊸"+g+")⁼", v, x, {}, e); call1(ex, "("+show(w)+"⊸"+g+")⁼", v, x, {.shared=true}, e); cb_dec(v);
    Outcome d = outcomeOf([&]() { p2(g, w, x); return x; }); if (!d.err && !d.unspec && !e.err && !e.unspec) { BV q, y; if (!cb_c1(b, toB(x), &q)) { BV v2 = undo(b); int rc = cb_c1(v2, q, &y); judge(ex, "("+show(w)+"⊸"+g+")⁼ "+show(w)+g+show(x), rc, y, d); cb_dec(v2); } } cb_dec(b); }
  ex.tick();
}
static void countsSmall(Ex& ex) { // /⁼: every list of up to 6 (8) of four values
  int n = ex.pick(ex.thorough? 9 : 7); static const vector<vector<Val>> A = {{0, 1, 2, 3}, {0, 1, 5, 60}, {3, 127, 128, 200}, {0, 7, 300, 1000}, {-1, 0, 1, 0.5}, {2, Val::chr('a'), 4, 1}}; const auto& a = ex.of(A); vector<Val> v; for (int i = 0; i < n; i++) v.push_back(a[ex.pick(4)]); if (n==0) return; Val x = Val::vec(v); BV u = undo(fnOf("/")); Outcome e = outcomeOf([&]() { return inv1("/", x); }); all1(ex, "/⁼", u, x, e, n<6? 2 : 1); cb_dec(u);
}
static void countsLong(Ex& ex) {
  size_t n = ex.of(vector<size_t>{1, 2, 7, 8, 9, 31, 32, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 1000, 2000}); double top = ex.of(vector<double>{0, 1, 2, 10, 63, 64, 127, 128, 129, 255, 256, 1000, 5000, 32767, 32768, 65535, 65536, 70000}); int pat = ex.pick(7), bad = ex.pick(4); if (!ex.thorough && bad && (n+(long)top+pat)%3) return; vector<Val> v; uint64_t s = n*31+pat;
  for (size_t i = 0; i < n; i++) { double q; switch (pat) { case 0: q = lcg(s)%((uint64_t)top+1); break; case 1: q = std::floor(i*top/n); break; case 2: q = top; break; case 3: q = i==n/2? top : 0; break; case 4: q = std::max(0.0, top-(double)i); break; case 5: q = i%2? top : 0; break; default: q = i+1==n? 0 : top; } v.push_back(Val(q)); }
  if (bad==1) v[n/2] = Val(-1); if (bad==2) v[n-1] = Val(0.5); if (bad==3) v[0] = Val::chr('a'); Val x = Val::vec(v); BV u = undo(fnOf("/")); Outcome e = outcomeOf([&]() { return inv1("/", x); }); all1(ex, "/⁼", u, x, e, 1); cb_dec(u);
}
static void countsBits(Ex& ex) { // Booleans: every length, position of the 1
  size_t n = ex.pick(ex.thorough? 200 : 140)+1; int p = ex.pick(4); vector<Val> v(n, Val(0)); if (p==1) v[n-1] = 1; if (p==2) for (auto& e : v) e = 1; if (p==3) for (size_t i = 0; i < n; i+= 3) v[i] = 1; Val x = Val::vec(v); BV u = undo(fnOf("/")); all1(ex, "/⁼", u, x, outcomeOf([&]() { return inv1("/", x); }), 2); cb_dec(u);
}
static void indicesBack(Ex& ex) { // /⁼ undoes / for every list of counts not ending in 0
  int n = 1+ex.pick(6); vector<Val> v; for (int i = 0; i < n; i++) v.push_back(ex.of(vector<Val>{0, 1, 2, 130})); Val w = Val::vec(v); vector<Val> t = v; while (!t.empty() && t.back().n==0) t.pop_back(); Val e = Val::vec(t).withFill(Val(0)); BV u = undo(fnOf("/")); for (auto& r : repsOf(w, 0)) { BV q, y; if (cb_c1(fnOf("/"), toB(w, r), &q)) ex.fail("/%s is an error", show(w).c_str()); int rc = cb_c1(u, q, &y); judge(ex, "/⁼ / "+show(w), rc, y, Outcome{false, false, e}); } cb_dec(u);
}
static bool close(double a, double b) { return a==b || (a!=a && b!=b) || std::abs(a-b) <= 1e-9*std::max(1.0, std::max(std::abs(a), std::abs(b))); }
static void numeric(Ex& ex) { // inverses of arithmetic: f⁼ undoes f
  struct A { const char* f; vector<double> x; bool neg; }; static const vector<A> FS = {
    {"⋆", {-3, -1, 0, 0.5, 1, 2, 10, 100}}, {"-", {-3, 0, 0.5, 127, 128, -128, 2147483647.0, -2147483648.0}}, {"•math.Sin", {-1.5, -1, 0, 0.5, 1, 1.5}}, {"•math.Cos", {0, 0.5, 1, 2, 3}}, {"•math.Tan", {-1.5, -1, 0, 0.5, 1.5}}, {"•math.ASin", {-1, -0.5, 0, 0.25, 1}}, {"•math.ACos", {-1, -0.5, 0, 0.25, 1}}, {"•math.ATan", {-100, -1, 0, 1, 3, 100}},
    {"•math.Sinh", {-3, -1, 0, 0.5, 4}}, {"•math.Cosh", {0, 0.5, 1, 4}}, {"•math.Tanh", {-2, -1, 0, 0.5, 2}}, {"•math.ASinh", {-30, -1, 0, 0.5, 40}}, {"•math.ACosh", {1, 1.5, 4, 1000}}, {"•math.ATanh", {-0.9, 0, 0.5, 0.999}}, {"•math.Expm1", {-3, -1, 0, 1e-10, 1, 20}}, {"•math.Log1p", {-0.9, 0, 1e-10, 1, 1000}}, {"•math.Fact", {1, 1.5, 2, 3, 4, 5, 10, 20}}, {"•math.LogFact", {1, 1.5, 2, 3, 4, 5, 10, 20, 300}}};
  const A& a = ex.of(FS); BV f = fnOf(a.f), u = undo(f); vector<Val> xs; for (double d : a.x) xs.push_back(Val(d)); Val all = Val::vec(xs);
  for (double d : a.x) { BV q, y; ex.op(); ex.compared(); if (cb_c1(f, toB(Val(d)), &q) || cb_c1(u, q, &y) || cb_kind(y)!=CK_NUM || !close(cb_num(y), d)) ex.fail("%s⁼ undoing %s of %.17g gives %s", a.f, a.f, d, showRes(0, y).c_str()); }
  for (auto& r : repsOf(all, 1)) { BV b = toB(all, r), k = cb_inc(b), q, y; ex.op(); ex.compared(); if (cb_c1(f, b, &q) || cb_c1(u, q, &y) || cb_kind(y)!=CK_ARR || cb_ia(y)!=xs.size()) ex.fail("%s⁼ undoing %s of %s fails", a.f, a.f, show(all).c_str()); for (size_t i = 0; i < xs.size(); i++) { BV it = cb_item(y, i); if (cb_kind(it)!=CK_NUM || !close(cb_num(it), xs[i].n)) ex.fail("%s⁼ undoing %s of %s gives %s", a.f, a.f, show(all).c_str(), show(fromB(y)).c_str()); } if (!same(k, all)) ex.fail("%s changed its argument", a.f); cb_dec(k); cb_dec(y); }
  Val nest = Val::vec({all, Val(a.x[1]), Val::vec({Val::vec({Val(a.x[2])})})}); { BV q, y; ex.op(); ex.compared(); if (cb_c1(f, toB(nest), &q) || cb_c1(u, q, &y)) ex.fail("%s⁼ of a nested list fails: %s", a.f, cb_err()); Val r = fromB(y); cb_dec(y); std::function<bool(const Val&, const Val&)> cl = [&](const Val& p, const Val& q) { if (p.isArr()!=q.isArr()) return false; if (!p.isArr()) return p.isNum() && q.isNum() && close(p.n, q.n); if (p.sh()!=q.sh()) return false; for (size_t i = 0; i < p.ia(); i++) if (!cl(p.it()[i], q.it()[i])) return false; return true; }; if (!cl(r, nest)) ex.fail("%s⁼ undoing %s of %s gives %s", a.f, a.f, show(nest).c_str(), show(r).c_str()); }
  for (auto& bad : {Val::chr('a'), Val::str("ab"), Val::vec({Val(1), Val::chr('a')})}) { BV q; int rc = cb_c1(u, toB(bad), &q); judge(ex, string(a.f)+"⁼ "+show(bad), rc, q, Outcome{true, false, Val()}); }
  cb_dec(u);
}
static void logs(Ex& ex) { // 𝕨⋆⁼𝕩, and Atan2 both ways
  static const vector<double> B = {2, 3, 10, 0.5, 1.5, 100}; double b = ex.of(B), x = ex.of(vector<double>{1, 2, 8, 10, 0.25, 1000, 7.5}); BV u = undo(fnOf("⋆")); Val w(b), v(x); Outcome e = outcomeOf([&]() { return s2("log", w, v); }); cross2(ex, "⋆⁼", u, w, v, e, 0, 0);
  for (auto& sh : vector<Sh>{{3}, {2,2}}) { Val q = famArr(FAM_I8, sh, 120, 3); vector<Val> pos; for (auto& z : q.it()) pos.push_back(Val(std::abs(z.n)+1)); Val y = Val::arr(sh, pos); Outcome o = outcomeOf([&]() { return p2("log", w, y); }); cross2(ex, "⋆⁼", u, w, y, o, 1, 1); Outcome o2 = outcomeOf([&]() { return p2("log", p2("+", y, Val(1)), v); }); cross2(ex, "⋆⁼", u, p2("+", y, Val(1)), v, o2, 1, 1); BV bd = bindL(w, fnOf("⋆")), bu = undo(bd); all1(ex, show(w)+"⊸⋆⁼", bu, y, o, 1); cb_dec(bd); cb_dec(bu); } cb_dec(u);
  BV at = fnOf("•math.Atan2"), ai = undo(at), sw, si; cb_m1(fnOf("˜"), cb_inc(at), &sw); si = undo(sw); for (double y : {0.3, 1.0, -1.2}) for (int k = 0; k < 2; k++) { BV a, r; ex.op(); ex.compared(); if (cb_c2(at, toB(Val(b)), toB(Val(y)), &a)) ex.fail("Atan2"); // y with b Atan2 y
      if (k==0) { if (cb_c2(ai, toB(Val(b)), a, &r) || !close(cb_num(r), y)) ex.fail("%g•math.Atan2⁼(%g Atan2 %g) gives %s", b, b, y, showRes(0, r).c_str()); } else { BV s; if (cb_c2(sw, toB(Val(b)), toB(Val(y)), &s)) ex.fail("Atan2˜"); cb_dec(a); if (cb_c2(si, toB(Val(b)), s, &r) || !close(cb_num(r), y)) ex.fail("%g•math.Atan2˜⁼(%g Atan2˜ %g) gives %s", b, b, y, showRes(0, r).c_str()); } } cb_dec(ai); cb_dec(sw); cb_dec(si);
}
static void repeatNeg(Ex& ex) { // ⍟ with negative counts
  struct R { const char* src; F1 f, i; }; static const vector<R> RS = {{"⌽", [](const Val& x) { return p1("⌽", x); }, [](const Val& x) { return inv1("⌽", x); }}, {"⍉", [](const Val& x) { return p1("⍉", x); }, [](const Val& x) { return inv1("⍉", x); }}, {"<", [](const Val& x) { return unitOf(x); }, [](const Val& x) { return inv1("<", x); }}, {"⋈", [](const Val& x) { return Val::vec({x}); }, [](const Val& x) { return inv1("⋈", x); }}, {"-", [](const Val& x) { return p1("-", x); }, [](const Val& x) { return p1("-", x); }}, {"(1⊸⌽)", [](const Val& x) { return p2("⌽", Val(1), x); }, [](const Val& x) { return rotInv(Val(1), x); }}, {"(⟨0,1⟩⊸⌽)", [](const Val& x) { return p2("⌽", numsV({0, 1}), x); }, [](const Val& x) { return rotInv(numsV({0, 1}), x); }}, {"≍", [](const Val& x) { return p1("≍", x); }, [](const Val& x) { return inv1("≍", x); }}};
  const R& r = ex.of(RS); static const vector<Val> N = {-1, -2, -3, -7, 2, numsV({-1}), numsV({-2, 0, 3}), numsV({0, -1, 1, -1}), numsV({-3, -2, -1}), Val::vec({numsV({-1, 2}), Val(0), Val(-2)}), unitOf(Val(-1)), numsV({-1, 0.5}), Val::vec({Val(-1), Val::chr('a')}), numsV({5, -5}), Val::arr({2,2}, {-1, 1, 0, -2})}; const Val& n = ex.of(N);
  static const vector<Val> X = {Val(3), numsV({1, 2, 3}), Val::str("abcd"), Val::arr({2,3}, {1, 2, 3, 4, 5, 6}), Val::arr({1,1,2}, {Val(1), Val::chr('a')}), unitOf(unitOf(unitOf(Val(1)))), Val::vec({Val::vec({Val::vec({Val(7)})})}), unitOf(unitOf(Val::str("xy"))), Val::arr({1,1,1}, {9})}; const Val& x = ex.of(X);
  Outcome o = outcomeOf([&]() { std::function<void(const Val&)> ck = [&](const Val& a) { if (a.isArr()) { for (auto& e : a.it()) ck(e); } else if (!a.isNum() || a.n!=std::floor(a.n)) err(); }; ck(n); long lo = 0, hi = 0; std::function<void(const Val&)> bd = [&](const Val& a) { if (a.isArr()) { for (auto& e : a.it()) bd(e); } else { lo = std::min(lo, (long)a.n); hi = std::max(hi, (long)a.n); } }; bd(n); std::map<long, Val> m; m[0] = x; for (long i = -1; i >= lo; i--) m[i] = r.i(m[i+1]); for (long i = 1; i <= hi; i++) m[i] = r.f(m[i-1]); std::function<Val(const Val&)> go = [&](const Val& a) -> Val { if (!a.isArr()) return m[(long)a.n]; vector<Val> v; for (auto& e : a.it()) v.push_back(go(e)); return Val::arr(a.sh(), v); }; return go(n); });
  for (auto& rn : repsOf(n, 0)) { BV d; cb_m2(fnOf("⍟"), cb_inc(fnOf(r.src)), toB(n, rn), &d); all1(ex, string(r.src)+"⍟("+show(n)+")", d, x, o, 1); cb_dec(d); BV c; cb_m1(fnOf("˙"), toB(n, rn), &c); cb_m2(fnOf("⍟"), cb_inc(fnOf(r.src)), c, &d); all1(ex, string(r.src)+"⍟("+show(n)+"˙)", d, x, o, 0); cb_dec(d); }
}
static void repeatNeg2(Ex& ex) { // with 𝕨
  const char* g = ex.of(vector<const char*>{"⌽", "⍉"}); const Val& n = ex.of(vector<Val>{Val(-1), Val(-2), numsV({-2, 0, 1}), Val(-4)}); const Val& w = ex.of(vector<Val>{Val(1), Val(0), numsV({1, 0}), Val(-2), numsV({1, 2})}); const Val& x = ex.of(vector<Val>{numsV({1, 2, 3}), Val::arr({2,3}, {1, 2, 3, 4, 5, 6}), Val::arr({2,1,2}, {Val(1), Val::chr('a'), Val(2), Val(3)})}); bool tr = string(g)=="⍉";
  Outcome o = outcomeOf([&]() { long lo = 0, hi = 0; if (n.isArr()) { lo = -2; hi = 1; } else lo = n.n; std::map<long, Val> m; m[0] = x; for (long i = -1; i >= lo; i--) m[i] = tr? transInvW(w, m[i+1]) : rotInv(w, m[i+1]); for (long i = 1; i <= hi; i++) m[i] = p2(g, w, m[i-1]); if (!n.isArr()) return m[(long)n.n]; return Val::vec({m[-2], m[0], m[1]}); }); BV d; cb_m2(fnOf("⍟"), cb_inc(fnOf(g)), toB(n), &d); cross2(ex, string(g)+"⍟("+show(n)+")", d, w, x, o, 1, 1); cb_dec(d);
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C13"; c.assumptions = {"inverses that only the self-hosted runtime implements are absent from this build", "inverses of transcendental functions are checked to 9 digits"};
  c.init = []() { cb_init(); for (auto g : {"⁼", "⊸", "⌽", "⍉", "⋆", "-", "<", "⋈", "≍", "/", "˜", "⍟", "˙", "•math.Atan2", "•math.Sin"}) fnOf(g); };
  c.perRun = gcEvery(300); c.after = sharedIntact;
  c.sc = {{"monadic", 2, monadic, 3, "7 functions × 34 arguments × 10 families × representations, and undoing what they did"},
          {"dyadic", 2, dyadic, 3, "𝕨⌽⁼𝕩 and 𝕨⍉⁼𝕩 for 36 𝕨 × 32 arguments × 10 families, directly and bound"},
          {"counts-small", 3, countsSmall, 3, "/⁼ on every list of up to 6 (8) of four values in 6 alphabets"},
          {"counts-long", 3, countsLong, 3, "/⁼: 25 lengths × 18 maxima × 7 patterns, valid or with one invalid item"},
          {"counts-bits", 2, countsBits, 3, "/⁼ on Boolean lists of every length up to 140 (200)"},
          {"indices-back", 2, indicesBack, 3, "/⁼ of /: every list of up to 6 counts"},
          {"numeric", 1, numeric, 3, "18 arithmetic functions"},
          {"logs", 1, logs, 3, "⋆⁼ with 𝕨, Atan2⁼ and Atan2˜⁼"},
          {"repeat-negative", 2, repeatNeg, 3, "8 functions × 15 counts × 9 arguments"},
          {"repeat-negative-dyadic", 2, repeatNeg2, 3, "⌽ and ⍉ with 𝕨"}};
  return mainMC(argc, argv, c);
}
