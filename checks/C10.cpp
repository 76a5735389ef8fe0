// Cells and rank: every function, frame, cell rank and representation against merging the results on the cells.
#include "gen.hpp"
using namespace bq;
struct Fn1 { string src; F1 f; };
struct Fn2 { string src; F2 f; bool arith; };
static vector<Fn1> ONE; static vector<Fn2> TWO; static int N1;
static F2 A2(const char* g) { string s = g; return [s](const Val& a, const Val& b) { return p2(s, a, b); }; }
static BV cellD(const string& f) { static std::map<string, BV> c; auto& r = c[f]; if (!r) r = derive1("˘", fnOf(f)); return r; }
static BV rankD(const string& f, const Val& k) { static std::map<string, BV> c; auto& r = c[f+show(k)]; if (!r) { BV b; if (cb_m2(fnOf("⎉"), cb_inc(fnOf(f)), toB(k), &b)) { fprintf(stderr, "⎉: %s\n", cb_err()); _exit(4); } r = b; } return r; }
static const vector<Sh> SH = {{}, {0}, {1}, {2}, {3}, {5}, {1,1}, {1,3}, {2,1}, {2,2}, {2,3}, {3,2}, {4,6}, {3,7}, {5,8}, {2,0}, {0,2}, {2,9}, {2,2,2}, {1,2,3}, {3,1,2}, {2,3,1}, {2,0,2}, {2,2,0}, {2,1,2,2}, {2,3,2,1}, {3,65}, {66,2}, {70,3}, {2,130}};
static const vector<int> FAMS = {FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8, FAM_C16, FAM_C32, FAM_MIX, FAM_NEST};
static Val filled(const Val& v) { if (!v.isArr()) return v; bool n = true, c = true; for (auto& x : v.it()) { n&= x.isNum(); c&= x.isChr(); } return n? v.withFill(Val(0)) : c? v.withFill(Val::chr(' ')) : v.withFill(Val(0)); }
static bool usesFill(const string& s) { return s.find("«")!=string::npos || s.find("»")!=string::npos || s.find("↑")!=string::npos; } // then the fill is given
static void one(Ex& ex) { // one argument: every function, shape, family and rank
  const Fn1& o = ex.of(ONE); const Sh& s = ex.of(SH); int fam = ex.of(FAMS); int range = ex.pick(2)? 3 : 100; if (fam==FAM_BIT && range==3) return; if (o.src=="/" && ((fam>=FAM_I16 && fam<=FAM_F64) || fam>=FAM_MIX)) return; if (!ex.thorough && prod(s)>40 && (fam==FAM_I16 || fam==FAM_C16 || fam==FAM_MIX || range==3)) return;
  Val x = famArr(fam, s, range, prod(s)+s.size()); if (usesFill(o.src)) x = filled(x); int lv = prod(s)<=12? 1 : 0;
  all1(ex, o.src+"˘", cellD(o.src), x, outcomeOf([&]() { return rank1(o.f, s.empty()? 0 : -1, x); }), lv);
  for (int k = -(int)s.size()-1; k <= (int)s.size(); k++) { if (k==-1) continue; Val K(k); all1(ex, o.src+"⎉"+show(K), rankD(o.src, K), x, outcomeOf([&]() { return rank1(o.f, k, x); }), prod(s)<=6? 1 : 0); }
}
static void atoms(Ex& ex) { const Fn1& o = ex.of(ONE); Val x = ex.of(vector<Val>{Val(0), Val(7), Val(0.5), Val::chr('a')}); Outcome e = outcomeOf([&]() { return rank1(o.f, 0, x); }); call1(ex, o.src+"˘", cellD(o.src), x, {}, e); for (int k : {-1, 0, 1}) call1(ex, o.src+"⎉", rankD(o.src, Val(k)), x, {}, e); }
static void rows(Ex& ex) { // reductions and scans of rows: every row length, few and many rows
  const Fn1& o = ONE[N1+ex.pick(ONE.size()-N1)]; size_t m = 1+ex.pick(ex.thorough? 140 : 70), n = ex.of(vector<size_t>{1, 2, 3, 7, 65, 150}); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_F64, FAM_C8, FAM_I32}); int kind = ex.pick(3); if (kind && fam!=FAM_BIT) return; if (!ex.thorough && m>24 && (m+kind)%3 && m%64>1) return; if (!ex.thorough && fam!=FAM_BIT && m>12 && m%8>1) return; if (n*m>1500 && !ex.thorough && m%4>1) return;
  Val x = famArr(fam, {n, m}, 200, n*m+kind); if (kind) { vector<Val> v; for (size_t i = 0; i < n*m; i++) v.push_back(Val((int)(kind==1? (i*i)%(2*m+1)==1 : (i*i)%(2*m+1)!=1))); x = Val::arr({n, m}, v); }
  Outcome e = outcomeOf([&]() { return rank1(o.f, 1, x); }); call1(ex, o.src+"˘", cellD(o.src), x, {}, e); if (fam==FAM_BIT) { call1(ex, o.src+"˘", cellD(o.src), x, {.elt=CE_I8}, e); if (m%5==0) call1(ex, o.src+"˘", cellD(o.src), x, {.elt=CE_BIT, .slice=1}, e); } ex.tick();
  if (n==7) { Val y = Val::arr({1, 7, 1, m}, x.it()); call1(ex, o.src+"⎉1", rankD(o.src, Val(1)), y, {}, outcomeOf([&]() { return rank1(o.f, 1, y); })); Val z = Val::arr({7, m, 1}, x.it()); call1(ex, o.src+"˘", cellD(o.src), z, {}, outcomeOf([&]() { return rank1(o.f, 2, z); })); }
}
static void tallRows(Ex& ex) { // so many rows that they are done in blocks
  const Fn1& o = ONE[N1+ex.pick(ONE.size()-N1)]; size_t m = ex.of(vector<size_t>{2, 3, 5, 6, 7, 9, 17, 31, 33, 64}), N = ex.of(vector<size_t>{29000, 60000}); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I32, FAM_F64}); if (!ex.thorough && (m==9 || m==31 || m==6 || m==3 || (N==60000 && fam!=FAM_BIT))) return; size_t n = (fam==FAM_I8? 2*N*2 : fam==FAM_BIT? N : N)/m; Val x = famArr(fam, {n, m}, 7, m); call1(ex, o.src+"˘", cellD(o.src), x, {}, outcomeOf([&]() { return rank1(o.f, 1, x); })); ex.tick();
}
static bool loose(const Fn2& o) { return o.src=="⍋" || o.src=="⍒"; } // whether an unsorted 𝕨 is noticed is left open (C06)
static void two(Ex& ex) { // two arguments: every pair of shapes and ranks
  const Fn2& o = ex.of(TWO); static const vector<Sh> S = {{}, {2}, {3}, {0}, {2,2}, {2,3}, {3,2}, {1,3}, {2,1}, {0,2}, {2,0}, {2,2,2}, {2,3,2}, {3,1,2}, {2,2,1,2}}; const Sh& a = ex.of(S); const Sh& b = ex.of(S); int fp = ex.pick(9); static const int FP[][2] = {{FAM_I8, FAM_I8}, {FAM_BIT, FAM_F64}, {FAM_NEST, FAM_I8}, {FAM_I8, FAM_C8}, {FAM_C16, FAM_MIX}, {FAM_BIT, FAM_BIT}, {FAM_I8, FAM_NEST}, {FAM_I32, FAM_BIT}, {-1, FAM_I8}}; int fa = FP[fp][0], fb = FP[fp][1]; if (fa<0 && a.size()) return; if (!ex.thorough && fp>3 && fp!=8 && (a.size()+b.size()>4 || !o.arith)) return;
  Val w = fa<0? Val(1) : famArr(fa, a, 3, 5), x = famArr(fb, b, 3, 6); if (usesFill(o.src)) { w = filled(w); x = filled(x); } if (w.isArr() && w.ia()==0) w = filled(w);
  auto at = [&](int kw, int kx) { return outcomeOf([&]() { return rank2(o.f, kw, kx, w, x); }); };
  cross2(ex, o.src+"˘", cellD(o.src), w, x, at(a.size()? -1 : 0, b.size()? -1 : 0), 1, 1, loose(o));
  for (int kw = -2; kw <= 2; kw++) for (int kx = -2; kx <= 2; kx++) { if (!ex.thorough && fp && (kw==-2 || kx==2)) continue; Val K = Val::vec({Val(kw), Val(kx)}); cross2(ex, o.src+"⎉"+show(K), rankD(o.src, K), w, x, at(kw, kx), 0, 0, loose(o)); }
}
static void bound(Ex& ex) { // 𝕨 or 𝕩 given beforehand with ⊸ and ⟜
  const Fn2& o = ex.of(TWO); static const vector<Val> V = {0, 1, -1, 2, 3, 0.5, Val::chr('a'), unitOf(Val(1)), Val::vec({}), Val::vec({1}), Val::vec({0, 1}), numsV({1, 2, 0}), Val::str("ab"), Val::arr({2,2}, {1,0,0,1}), Val::vec({Val::vec({0, 1})}), Val::vec({-1, 0}), Val::arr({0,2}, {})}; Val v = ex.of(V); if (usesFill(o.src) || (v.isArr() && v.ia()==0)) v = filled(v); static const vector<Sh> S = {{2}, {3}, {2,2}, {2,3}, {3,2}, {3,1}, {1,2}, {2,3,2}, {2,2,2}, {5,3}, {2,0}, {65,2}}; const Sh& s = ex.of(S); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_F64, FAM_C8, FAM_NEST}); if (!ex.thorough && prod(s)>20 && fam==FAM_F64) return; Val x = famArr(fam, s, 3, 8); if (usesFill(o.src) || x.ia()==0) x = filled(x);
  static std::map<string, std::pair<BV,BV>> cache; auto& c = cache[o.src+"|"+show(v)+"|"+eltName(v.isArr()? minElt(v) : 0)]; if (!c.first) { cb_m2(fnOf("⊸"), toB(v), cb_inc(fnOf(o.src)), &c.first); cb_m2(fnOf("⟜"), cb_inc(fnOf(o.src)), toB(v), &c.second); }
  F1 bf = [&](const Val& q) { return o.f(v, q); }, af = [&](const Val& q) { return o.f(q, v); };
  for (int k = 0; k <= (int)s.size(); k++) { BV d, K = cb_mknum(k); cb_m2(fnOf("⎉"), cb_inc(c.first), K, &d); Outcome e = outcomeOf([&]() { return rank1(bf, k, x); }); string nm = show(v)+"⊸"+o.src+"⎉"+std::to_string(k); if (v.isArr()) nm = "("+show(v)+")⊸"+o.src+"⎉"+std::to_string(k); all1(ex, nm, d, x, e, prod(s)<8? 1 : 0, loose(o)); cb_dec(d); cb_m2(fnOf("⎉"), cb_inc(c.second), cb_mknum(k), &d); all1(ex, o.src+"⟜("+show(v)+")⎉"+std::to_string(k), d, x, outcomeOf([&]() { return rank1(af, k, x); }), 0, loose(o)); cb_dec(d); 
    // and as a second argument of rank 0 or its own
    Val KK = Val::vec({Val(99), Val(k)}); cross2(ex, o.src+"⎉"+show(KK), rankD(o.src, KK), v, x, outcomeOf([&]() { return rank2(o.f, 99, k, v, x); }), 0, 0, loose(o)); Val KL = Val::vec({Val(k), Val(99)}); cross2(ex, o.src+"⎉"+show(KL), rankD(o.src, KL), x, v, outcomeOf([&]() { return rank2(o.f, k, 99, x, v); }), 0, 0, loose(o)); }
}
static void matchRows(Ex& ex) { // ≡ and ≢ of rows: every pair of element types and a difference at every place
  int ne = ex.pick(2); size_t m = ex.of(vector<size_t>{1,2,3,7,8,9,16,17,64,65}), n = ex.of(vector<size_t>{1,2,5}); size_t at = ex.pick(n*m+1); int ew = ex.pick(CE_B+1), xw = ex.pick(CE_B+1); if (m>17 && at>3 && at+3<n*m && at%7) return; if (!ex.thorough && m>9 && (ew*3+xw+at)%5) return; bool ch = ew>=CE_C8 && ew<CE_B; uint64_t s = m; vector<Val> v; for (size_t i = 0; i < n*m; i++) { int q = lcg(s)&1; v.push_back(ch? Val::chr('a'+q) : Val(q)); } vector<Val> u = v; if (at<n*m) u[at] = ch? Val::chr('z') : xw==CE_BIT? Val(1-(int)v[at].n) : Val(2); Val w = Val::arr({n, m}, v), x = Val::arr({n, m}, u); if (!fits(ew, w) || !fits(xw, x)) { if (xw>CE_F64 || ch) { x = famArr(FAM_C8, {n, m}, 4, 1); if (!fits(xw, x) || !fits(ew, w)) return; } else return; }
  const char* g = ne? "≢" : "≡"; call2(ex, string(g)+"˘", cellD(g), w, {.elt=ew}, x, {.elt=xw}, outcomeOf([&]() { return rank2(A2(g), 1, 1, w, x); })); ex.tick();
}
static void bigCells(Ex& ex) { // arithmetic between a long list and every row, around where the list is no longer repeated
  const char* g = ex.of(vector<const char*>{"+", "=", "⌊"}); size_t m = ex.of(vector<size_t>{255, 256, 257, 2048, 2049, 16384, 16385}), n = ex.of(vector<size_t>{1, 2, 3}); int fa = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_F64}), fb = ex.of(vector<int>{FAM_BIT, FAM_I16, FAM_F64}); Val w = famArr(fa, {m}, 100, 3), x = famArr(fb, {n, m}, 100, 4), y = famArr(fb, {n}, 100, 4); F2 f = A2(g); Val K = Val::vec({1}); call2(ex, string(g)+"⎉1", rankD(g, K), w, {}, x, {}, outcomeOf([&]() { return rank2(f, 1, 1, w, x); })); call2(ex, string(g)+"⎉1", rankD(g, K), x, {}, w, {}, outcomeOf([&]() { return rank2(f, 1, 1, x, w); })); Val L = numsV({1, 0}); call2(ex, string(g)+"⎉1‿0", rankD(g, L), w, {}, y, {}, outcomeOf([&]() { return rank2(f, 1, 0, w, y); })); call2(ex, string(g)+"˘", cellD(g), x, {}, y, {}, outcomeOf([&]() { return rank2(f, -1, -1, x, y); })); call2(ex, g, fnOf(g), y, {}, x, {}, outcomeOf([&]() { return rank2(f, 0, 1, y, x); })); ex.tick();
}
static void rightArg(Ex& ex) { // what 𝔾 of ⎉ may be
  static const vector<Val> G = {0, 1, 2, -1, -2, 99, -99, (double)INFINITY, -(double)INFINITY, 0.5, -0.5, Val::chr('a'), Val::vec({}), Val::vec({1}), numsV({0, 1}), numsV({1, 0}), numsV({1, 0, 1}), numsV({0, 1, 0}), numsV({2, 1, 0}), numsV({0, 1, 2, 0}), numsV({0.5}), numsV({0, 0.5}), Val::vec({Val(1), Val::chr('a')}), unitOf(Val(1)), Val::arr({1,2}, {0, 1}), Val::vec({Val::vec({1})}), numsV({(double)INFINITY, 0}), numsV({-1, 1}), numsV({1, -1}), numsV({-1, 0, (double)INFINITY})};
  const Val& g = ex.of(G); int fun = ex.pick(2); const Fn2& o = TWO[ex.pick(TWO.size())]; const Fn1& p = ex.of(vector<Fn1>(ONE.begin(), ONE.begin()+5)); for (auto& r : repsOf(g, 1)) { BV gb = toB(g, r), d; if (fun) { BV q; cb_m1(fnOf("˙"), gb, &q); gb = q; } if (cb_m2(fnOf("⎉"), cb_inc(fnOf(p.src)), cb_inc(gb), &d)) ex.fail("⎉ cannot be derived"); BV d2; cb_m2(fnOf("⎉"), cb_inc(fnOf(o.src)), gb, &d2);
    vector<double> ks; bool bad = false; if (g.isNum()) ks = {g.n}; else if (!g.isArr()) bad = true; else { if (g.ia()<1 || g.ia()>3) bad = true; for (auto& e : g.it()) { if (!e.isNum()) bad = true; else ks.push_back(e.n); } } for (double k : ks) if (k!=floor(k)) bad = true; auto kk = [](double d) { return d>1000? 1000 : d<-1000? -1000 : (int)d; };
    for (auto& x : vector<Val>{famArr(FAM_I8, {2,3}, 5, 1), famArr(FAM_NEST, {2,2}, 5, 1), famArr(FAM_BIT, {3}, 5, 1)}) {
      Outcome e; if (bad) e.err = true; else { double k = ks.size()==2? ks[1] : ks[0]; e = outcomeOf([&]() { return rank1(p.f, kk(k), x); }); } call1(ex, p.src+"⎉"+(fun? "("+show(g)+"˙)" : show(g)), d, x, {}, e);
      Outcome e2; Val w = famArr(FAM_I8, {2}, 3, 3); if (bad) e2.err = true; else { double a = ks.size()<2? ks[0] : ks[ks.size()-2], b = ks.back(); e2 = outcomeOf([&]() { return rank2(o.f, kk(a), kk(b), w, x); }); } call2(ex, o.src+"⎉"+(fun? "("+show(g)+"˙)" : show(g)), d2, w, {}, x, {}, e2); }
    if (bad) { call1(ex, p.src+"⎉"+show(g), d, Val(3), {}, Outcome{.err=true}); }
    cb_dec(d); cb_dec(d2); ex.tick(); }
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C10";
  c.assumptions = {"with no cells in the frame only the absence of crashes and malformed results is checked", "⚇ (depth) is runtime code and absent from this build"};
  c.init = []() {
    cb_init();
    for (auto g : {"⊢", "⊣", "<", "⊏", "⊑", "≍", "⥊", "«", "»", "⍉", "⌽", "∧", "∨", "⍋", "⍒", "⊐", "⊒", "∊", "⍷", "≠", "≢", "=", "≡", "-", "⋈", "∾", ">", "/"}) { string s = g; ONE.push_back({s, [s](const Val& a) { return p1(s, a); }}); }
    ONE.push_back({"(7˙)", [](const Val&) { return Val(7); }}); ONE.push_back({"⟨1,2⟩", [](const Val&) { return Val::vec({1, 2}); }}); ONE.push_back({"⊢˘", [](const Val& a) { return rank1([](const Val& q) { return q; }, a.rank()? -1 : 0, a); }}); ONE.push_back({"≠⎉1", [](const Val& a) { return rank1([](const Val& q) { return p1("≠", q); }, 1, a); }}); ONE.push_back({"⌽˘", [](const Val& a) { return rank1([](const Val& q) { return p1("⌽", q); }, a.rank()? -1 : 0, a); }}); ONE.push_back({"(≍⁼)", [](const Val& a) -> Val { if (!a.isArr() || a.rank()==0 || a.sh()[0]!=1) err(); Val q = cellOf(a, 0); return q.rank()==0? q : q; }}); ONE.push_back({"(+¨)", [](const Val& a) { return each1([](const Val& q) { return p1("+", q); }, a); }});
    N1 = ONE.size();
    for (auto g : {"+", "-", "×", "⌊", "⌈", "∧", "∨", "=", "≠", "<", "≤", ">", "≥", "⊣", "⊢", "∾", "⋈"}) { string s = g; F2 f = A2(g); ONE.push_back({s+"´", [f, s](const Val& a) { return fold1(f, s, a); }}); ONE.push_back({s+"˝", [f, s](const Val& a) { return insert1(f, s, a); }}); ONE.push_back({s+"`", [f](const Val& a) { return scan1(f, a); }}); }
    for (auto g : {"+", "-", "⌊", "=", "<", "⊣", "⊢", "≡", "≢", "≍", "⊏", "⊑", "↑", "↓", "⌽", "⍉", "«", "»", "∾", "⋈", "⊐", "∊", "⥊", "/", "⍋", "⊒", "⍒"}) TWO.push_back({g, string(g)=="/"? F2([](const Val& a, const Val& b) -> Val { if (a.isArr()) for (auto& e : a.it()) if (e.isArr()) throw Unspec{}; return p2("/", a, b); }) : A2(g), string("+-⌊=<").find(g)!=string::npos}); // compound 𝕨 of / is runtime code
    TWO.push_back({"(7˙)", [](const Val&, const Val&) { return Val(7); }, false}); TWO.push_back({"⟨1,2⟩", [](const Val&, const Val&) { return Val::vec({1, 2}); }, false});
    for (auto& o : ONE) { cellD(o.src); for (int k = -5; k <= 4; k++) rankD(o.src, Val(k)); } for (auto& o : TWO) cellD(o.src);
    fnOf("⊸"); fnOf("⟜"); fnOf("˙"); fnOf("⎉");
  };
  c.perRun = gcEvery(300); c.after = sharedIntact;
  c.sc = {{"one", 3, one, 3, "88 functions and derived functions × 30 shapes × 10 families × every cell rank × representations"},
          {"atoms", 2, atoms, 3, "atoms"},
          {"rows", 3, rows, 3, "folds, inserts and scans of rows: lengths 1–70 (140) × 6 numbers of rows × 5 families × bit patterns"},
          {"tall-rows", 3, tallRows, 3, "thousands of rows, done in blocks"},
          {"two", 3, two, 3, "29 functions × 15 × 15 shapes × 9 family pairs × 25 pairs of ranks"},
          {"bound", 3, bound, 3, "29 functions × 17 bound arguments on either side × 12 shapes × 5 families × ranks"},
          {"match-rows", 3, matchRows, 3, "≡ and ≢ on rows: every pair of element types, a difference at every place"},
          {"big-cells", 2, bigCells, 3, "cells around the limit of repeating the other argument"},
          {"right-argument", 3, rightArg, 3, "30 ranks, valid and invalid, as values and as functions"}};
  return mainMC(argc, argv, c);
}
