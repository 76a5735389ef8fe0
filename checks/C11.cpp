// Under: 𝔽⌾𝔾 for every structural 𝔾 the system implements itself, against replacing the selected positions one by one.
#include "gen.hpp"
using namespace bq;
// 𝔾 as a function from positions to positions
struct G { string src; F1 f; F1 inv; }; // inv: 𝔾 also has an inverse for results of any shape
struct F { string src; F1 f; };
static Val positions(const Val& x) { vector<Val> v; for (size_t i = 0; i < x.ia(); i++) v.push_back(Val((double)i)); return Val::arr(x.sh(), v).withFill(Val(-1)); }
static Val filled(const Val& v) { if (!v.isArr()) return v; bool n = true, c = true; for (auto& x : v.it()) { n&= x.isNum(); c&= x.isChr(); } return n? v.withFill(Val(0)) : c? v.withFill(Val::chr(' ')) : v; }
static Val readAt(const Val& x, const Val& p) { if (!p.isArr()) return x.it()[p.n]; vector<Val> v; for (auto& q : p.it()) { if (q.n<0) err("fill"); v.push_back(x.it()[q.n]); } Val r = Val::arr(p.sh(), v); return x.fill()? r.withFill(*x.fill()) : r; }
static Val under(const F1& f, const F1& g, const Val& x, const F1& inv = nullptr) {
  if (!x.isArr()) unspec();
  Val p = g(positions(x)), y = f(readAt(x, p)); vector<Val> r = x.it(); vector<char> seen(r.size());
  if (!p.isArr()) { r[p.n] = y; return Val::arr(x.sh(), r); }
  if (!y.isArr() || y.sh()!=p.sh()) { if (inv) return inv(y); err("shape"); }
  for (size_t i = 0; i < p.ia(); i++) { size_t q = p.it()[i].n; if (seen[q] && !matchV(r[q], y.it()[i])) err("conflict"); seen[q] = 1; r[q] = y.it()[i]; }
  return Val::arr(x.sh(), r);
}
static F1 A1(const char* g) { string s = g; return [s](const Val& a) { return p1(s, a); }; }
static F1 W2(const char* g, const Val& w) { string s = g; return [s, w](const Val& a) { return p2(s, w, a); }; }
static BV underOf(BV f, BV g) { BV r; if (cb_m2(fnOf("⌾"), f, g, &r)) { fprintf(stderr, "⌾: %s\n", cb_err()); _exit(4); } return r; } // consumes
static BV bind(const Val& w, const Rep& r, const char* g) { BV d; if (cb_m2(fnOf("⊸"), toB(w, r), cb_inc(fnOf(g)), &d)) _exit(4); return d; }
static BV constF(const Val& v, const Rep& r = {}) { BV d; cb_m1(fnOf("˙"), toB(v, r), &d); return d; }
static vector<F> FS; // 𝔽 as a function
static const vector<Sh> SH = {{}, {0}, {1}, {2}, {3}, {5}, {8}, {1,1}, {2,2}, {2,3}, {3,2}, {3,0}, {0,3}, {2,2,2}, {3,1,2}, {9}, {65}};
static const vector<int> FAMS = {FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8, FAM_C16, FAM_C32, FAM_MIX, FAM_NEST};
static vector<Val> constants(const Val& like) { // replacements of the right shape of every kind, and of wrong shapes
  vector<Val> r; for (int fam : FAMS) { if (!like.isArr()) r.push_back(famItem(fam, 1, 0)); else r.push_back(famArr(fam, like.sh(), fam==FAM_BIT? 2 : 200, 77)); }
  r.push_back(Val(0)); r.push_back(Val::chr('q')); r.push_back(numsV({1})); if (like.isArr()) { Sh s = like.sh(); s.push_back(1); r.push_back(famArr(FAM_I8, s, 5, 1)); if (s.size()>1) { s.pop_back(); s[0]++; r.push_back(famArr(FAM_I8, s, 5, 1)); } }
  return r;
}
// 𝔽⌾g for all functions and constants 𝔽
static void allF(Ex& ex, const string& gn, BV g, const F1& gf, const Val& x, int lv, const F1& inv = nullptr) {
  for (auto& f : FS) { Outcome e = outcomeOf([&]() { return under(f.f, gf, x, inv); }); BV d = underOf(cb_inc(fnOf(f.src)), cb_inc(g)); all1(ex, f.src+"⌾("+gn+")", d, x, e, lv); cb_dec(d); }
  Outcome p = outcomeOf([&]() { return gf(positions(x)); }); if (p.err || p.unspec || !x.isArr()) return;
  for (auto& c : constants(p.v)) { Outcome e = outcomeOf([&]() { return under([&](const Val&) { return c; }, gf, x, inv); }); for (auto& r : repsOf(c, 0)) for (int fn = 0; fn < 2; fn++) { BV d = underOf(fn? constF(c, r) : toB(c, r), cb_inc(g)); if (!c.isArr() || r.elt==minElt(c)) all1(ex, "("+show(c)+(fn? "˙" : "")+")⌾("+gn+")", d, x, e, lv); else call1(ex, "("+show(c)+")⌾("+gn+")", d, x, {}, e); cb_dec(d); } }
  // the argument itself as the replacement
  if (p.v.isArr() && p.v.sh()==x.sh()) for (auto& r : repsOf(x, 1)) { BV b = toB(x, r), d = underOf(cb_inc(b), cb_inc(g)), q; Outcome e = outcomeOf([&]() { return under([&](const Val&) { return x; }, gf, x); }); int rc = cb_c1(d, b, &q); judge(ex, show(x)+"⊸{𝕨⌾("+gn+")𝕨}", rc, q, e); cb_dec(d); }
}
static Val noFills(const Val& q) { if (q.isArr()) for (auto& e : q.it()) if (e.isArr() || e.n<0) err(); return q; }
static const F1 ANY = [](const Val&) -> Val { throw Unspec{}; };
static void monadic(Ex& ex) {
  static const vector<G> GS = {{"⊢", A1("⊢"), A1("⊢")}, {"⊣", A1("⊣"), A1("⊢")}, {"⌽", A1("⌽"), A1("⌽")}, {"⍉", A1("⍉"), ANY}, {"⥊", A1("⥊")}, {"⊑", A1("⊑")}, {"≍", A1("≍"), ANY},
    {"⌽∘⍉", [](const Val& a) { return p1("⌽", p1("⍉", a)); }, ANY}, {"(⌽⍉)", [](const Val& a) { return p1("⌽", p1("⍉", a)); }, ANY}, {"(⊑⌽)", [](const Val& a) { return p1("⊑", p1("⌽", a)); }}, {"⊑∘⥊", [](const Val& a) { return p1("⊑", p1("⥊", a)); }}, {"(2↑⥊)", [](const Val& a) { return p2("↑", Val(2), p1("⥊", a)); }}, {"(1⌽⥊∘⍉)", [](const Val& a) { return p2("⌽", Val(1), p1("⥊", p1("⍉", a))); }}, {"(1↓⌽)", [](const Val& a) { return p2("↓", Val(1), p1("⌽", a)); }}, {"(0⊏⍉)", [](const Val& a) { return p2("⊏", Val(0), p1("⍉", a)); }}, {"(1⊑2⊸↑)", [](const Val& a) { return p2("⊑", Val(1), noFills(p2("↑", Val(2), a))); }}};
  const G& g = ex.of(GS); const Sh& s = ex.of(SH); int fam = ex.of(FAMS); if (!ex.thorough && prod(s)>8 && fam>FAM_I8 && fam!=FAM_NEST) return; Val x = filled(famArr(fam, s, 100, prod(s)+1)); if (x.ia()==0 && g.src.find("⊑")!=string::npos) return;
  allF(ex, g.src, fnOf(g.src), [&](const Val& p) { Val q = g.f(p); if (q.isArr()) for (auto& e : q.it()) if (e.n<0) err(); return q; }, x, prod(s)<=3? 1 : 0, g.inv);
}
static void boxes(Ex& ex) { // < and ⋈: the whole argument inside
  int k = ex.pick(2); const char* gn = k? "⋈" : "<"; const Sh& s = ex.of(SH); int fam = ex.of(FAMS); Val x = s.empty() && fam%2? famItem(fam, 3, 0) : famArr(fam, s, 100, 3);
  for (auto& f : FS) { Outcome e = outcomeOf([&]() { Val y = f.f(k? Val::vec({x}) : unitOf(x)); if (!y.isArr() || y.rank()!=(size_t)k || y.ia()!=1) err(); return y.it()[0]; }); BV d = underOf(cb_inc(fnOf(f.src)), cb_inc(fnOf(gn))); all1(ex, f.src+"⌾"+gn, d, x, e, prod(s)<4? 1 : 0); cb_dec(d); }
  for (auto& c : vector<Val>{unitOf(Val(1)), unitOf(Val::vec({1})), Val::vec({Val::chr('a')}), Val::vec({Val::str("ab")}), Val(3), Val::arr({1,1}, {1}), numsV({1, 2})}) { Outcome e = outcomeOf([&]() { if (!c.isArr() || c.rank()!=(size_t)k || c.ia()!=1) err(); return c.it()[0]; }); for (auto& r : repsOf(c, 0)) { BV d = underOf(toB(c, r), cb_inc(fnOf(gn))); call1(ex, "("+show(c)+")⌾"+gn, d, x, {}, e); cb_dec(d); } }
}
static const vector<Val> WS = {0, 1, 2, -1, -2, 3, 7, -3, 0.5, Val::chr('a'), numsV({0}), numsV({1, 0}), numsV({-1, 0}), numsV({0, 0}), numsV({1, 1, 1}), numsV({0, 1, 2}), numsV({2, 1}), Val::vec({}), numsV({1, 1, 0}), numsV({0, 1}), numsV({0, 0, 0}), numsV({2, 0, 1}), numsV({5}), numsV({1, 2, 0}), unitOf(Val(0)), Val::arr({2,1}, {1, 0}), Val::arr({1,2}, {0, 1}), numsV({0.5}), numsV({2, 2}), numsV({6}), numsV({3, 2}), Val::vec({numsV({0, 1}), numsV({1, 0})}), Val::vec({numsV({0, 0}), numsV({-1, -1}), numsV({0, 1})}), numsV({0, 1, 0}), numsV({1, 0, 1, 1, 0, 0, 1, 1}), numsV({1, 0, 1, 1, 0, 0, 1, 1, 1})};
static void dyadic(Ex& ex) { // w⊸𝔾
  const char* gn = ex.of(vector<const char*>{"⊏", "⊑", "/", "↑", "↓", "⥊", "⌽", "⍉"}); string g = gn; const Val& w = ex.of(WS); const Sh& s = ex.of(SH); int fam = ex.of(FAMS); if (!ex.thorough && prod(s)>5 && fam!=FAM_I8 && fam!=FAM_BIT && fam!=FAM_NEST) return; if (!ex.thorough && prod(s)>8 && fam==FAM_NEST) return; Val x = filled(famArr(fam, s, 100, prod(s)+1)); Val w0 = w.isArr() && w.ia()==0? filled(w) : w;
  // left to the runtime, which is absent here
  if (g=="⊏" && w.isArr()) for (auto& e : w.it()) if (e.isArr()) return;
  if (g=="/" && (!w.isArr() || x.rank()!=1 || w.rank()!=1 || w.ia()!=x.ia())) return;
  if ((g=="↑" || g=="↓") && !w.isNum()) return;
  if (g=="⥊") { size_t n = 1; if (w.isArr()) for (auto& e : w.it()) { if (!e.isNum() || e.n<0 || e.n!=floor(e.n)) { n = 0; break; } n*= (size_t)e.n; } else if (w.isNum() && w.n>0 && w.n==floor(w.n)) n = w.n; else n = 0; if (n>x.ia()) return; }
  if (g=="⊑") { if (x.ia()==0) return; if (w.isArr()) { bool deep = false; for (auto& e : w.it()) deep|= e.isArr(); if (deep && x.rank()!=2) return; if (!deep && (w.rank()!=1 || w.ia()!=x.rank())) return; if (x.rank()==0) return; } else if (x.rank()!=1) return; }
  if (g=="⍉") { if (w.isArr()) for (auto& a : w.it()) for (auto& b : w.it()) if (&a!=&b && a.isNum() && b.isNum() && a.n==b.n) return; }
  if (w.isChr() || (w.isArr() && w.ia()==0 && g!="⊏" && g!="⥊")) return;
  F1 gf = [&](const Val& p) { if (g=="↑" && w.isNum() && p.rank() && std::abs(w.n)>p.sh()[0]) err(); Val q = p2(g, w0, p); if (q.isArr()) for (auto& e : q.it()) if (e.isArr() || e.n<0) err(); return q; };
  for (auto& r : repsOf(w0, 0)) { if (w0.isArr() && r.elt!=minElt(w0) && r.elt!=CE_B && !ex.thorough && prod(s)>3) continue; BV b = bind(w0, r, gn); allF(ex, show(w0)+"⊸"+g, b, gf, x, prod(s)<=3 && (!w0.isArr() || r.elt==minElt(w0))? 1 : 0, g=="⌽" || g=="⍉"? ANY : F1()); cb_dec(b); if (!w0.isArr()) break; }
}
static void everyPos(Ex& ex) { // one position of a list replaced: every place, every pair of element types
  size_t n = ex.of(vector<size_t>{1, 2, 7, 8, 9, 63, 64, 65, 66}), i = ex.pick(n); int fam = ex.of(FAMS), k = ex.pick(6); if (!ex.thorough && n>9 && i>2 && i+3<n && i%9) return; Val x = famArr(fam, {n}, 100, 5); static const vector<Val> V = {0, 1, -1, 2, 127, 128, -128, -129, 32767, 32768, -32769, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 0.5, -0.0, (double)INFINITY, Val::chr('a'), Val::chr(0xFF), Val::chr(0x100), Val::chr(0xFFFF), Val::chr(0x10000), Val::vec({1}), Val::str("ab"), Val::vec({})};
  static const char* NM[] = {"(i⊸⊑)", "(⟨i⟩⊸⊏)", "(b⊸/)", "(i⊸⊏)", "constant each ⊏", "constant each /"}; vector<Val> bits(n, Val(0)); bits[i] = 1;
  for (auto& v : V) { vector<Val> it = x.it(); it[i] = v; Outcome e; e.v = Val::vec(it); BV g, f; string nm = show(v)+"⌾"+NM[k]+" i="+std::to_string(i);
    switch (k) { case 0: g = bind(Val((double)i), {}, "⊑"); f = constF(v); break; case 1: g = bind(Val::vec({(double)i}), {}, "⊏"); f = constF(Val::vec({v})); break; case 2: g = bind(Val::vec(bits), {}, "/"); f = constF(Val::vec({v})); break; case 3: g = bind(Val(-(double)(n-i)), {}, "⊏"); f = constF(unitOf(v)); break;
      default: { g = k==4? bind(Val::vec({(double)i}), {.elt=CE_I32}, "⊏") : bind(Val::vec(bits), {.elt=CE_I8}, "/"); BV q = constF(v); cb_m1(fnOf("¨"), q, &f); } }
    BV d = underOf(f, g); for (auto& r : repsOf(x, n<9? 1 : 0)) { call1(ex, nm, d, x, r, e); if (r.elt==minElt(x) && n<9) { Rep q = r; q.shared = true; call1(ex, nm, d, x, q, e); } } cb_dec(d); ex.tick(); }
}
static void lists(Ex& ex) { // longer selections: every length, index patterns and index types
  size_t n = ex.pick(ex.thorough? 140 : 70)+1; int pat = ex.pick(6), fam = ex.of(FAMS), rfam = ex.of(FAMS); if (!ex.thorough && n>20 && (fam+rfam+pat+n)%5) return; Val x = famArr(fam, {n}, 100, 2); vector<Val> ix; for (size_t i = 0; i < n; i++) { if (pat==0) ix.push_back(Val((double)(n-1-i))); if (pat==1 && i%2) ix.push_back(Val((double)i)); if (pat==2) ix.push_back(Val((double)((i*i)%n))); if (pat==3 && i%3==0) ix.push_back(Val((double)i-(double)n)); } Val w; vector<Val> bits; const char* gn = "⊏";
  if (pat<4) w = Val::vec(ix).withFill(Val(0)); else { gn = "/"; for (size_t i = 0; i < n; i++) bits.push_back(Val((int)(pat==4? (i*7%11)%2 : i%5!=0? 1 : 0))); w = Val::vec(bits); }
  string g = gn; F1 gf = W2(gn, w); Val p = gf(positions(x)); Val y = famArr(rfam, p.sh(), 150, 9); if (pat==2) { vector<Val> q; for (auto& e : p.it()) q.push_back(famItem(rfam, (uint64_t)e.n*7, 150)); if (n%4==3 && q.size()>3) q[q.size()-2] = famItem(rfam, 99, 150); y = Val::vec(q); }
  Outcome e = outcomeOf([&]() { return under([&](const Val&) { return y; }, gf, x); });
  for (auto& rw : repsOf(w, 0)) for (int cst = 0; cst < 2; cst++) { BV b = bind(w, rw, gn); BV d = underOf(cst? toB(y) : constF(y), b); call1(ex, "(…)⌾("+show(w)+"⊸"+g+")", d, x, {}, e); call1(ex, "(…)⌾("+show(w)+"⊸"+g+")", d, x, {.shared=true}, e); if (rw.elt==minElt(w)) { call1(ex, "(…)⌾(…⊸"+g+")", d, x, {.elt=CE_B}, e); call1(ex, "(…)⌾(…⊸"+g+")", d, x, {.slice=3}, e); } cb_dec(d); }
  if (n>9) return; F1 cf = [&](const Val& a) { vector<Val> r(a.ia(), famItem(rfam, 3, 0)); return Val::arr(a.sh(), r); }; Outcome e2 = outcomeOf([&]() { return under(cf, gf, x); }); BV q = constF(famItem(rfam, 3, 0)), f; cb_m1(fnOf("¨"), q, &f); BV d = underOf(f, bind(w, {}, gn)); all1(ex, show(famItem(rfam, 3, 0))+"¨⌾("+show(w)+"⊸"+g+")", d, x, e2, 1); cb_dec(d);
}
static void dirty(size_t n) { // leave non-zero memory for the temporaries to come
  for (size_t m : {n, n*8, n*16}) { BV r, k = cb_mknum(85), l = cb_mknum((double)m), a; if (cb_c2(fnOf("⥊"), l, k, &r)) continue; if (!cb_c2(fnOf("+"), cb_mknum(0), r, &a)) cb_dec(a); } }
static void cellSel(Ex& ex) { // selections of cells, and few of many: duplicates, agreeing and not, negative indices, every index type
  size_t n = ex.of(vector<size_t>{1,2,3,5,9,64,65,130,200,300}); size_t k = ex.of(vector<size_t>{0,1,2,3,5,8}); size_t wn = ex.pick(n<9? 4 : 5)+1; int pat = ex.pick(4), fam = ex.of(FAMS), rfam = ex.of(FAMS), clash = ex.pick(wn>1? 3 : 1); if (!ex.thorough && (n>5 || wn>3) && (fam*3+rfam+pat+k+wn)%4) return; if (n>9 && k>3) return; if (clash==2 && k<2) return;
  vector<Val> ix; for (size_t i = 0; i < wn; i++) { long v = pat==0? (long)(n-1-i%n) : pat==1? (long)(i*7%n) : pat==2? -1-(long)(i*5%n) : i%2? (long)(n/2) : (long)(n/2)-(long)n; ix.push_back(Val((double)v)); } Val w = Val::vec(ix);
  Sh xs = {n}; if (k) xs.push_back(k); Val x = famArr(fam, xs, 100, 2); F1 gf = W2("⊏", w); Val p = gf(positions(x)); vector<Val> q; for (auto& e : p.it()) q.push_back(famItem(rfam, (uint64_t)e.n*7, 150)); if (clash && q.size()) q[clash==1? q.size()-1 : q.size()-k] = famItem(rfam, (uint64_t)p.it()[clash==1? q.size()-1 : q.size()-k].n*7+1, 150); Val y = Val::arr(p.sh(), q); F1 yf = [&](const Val&) { return y; };
  Outcome e = outcomeOf([&]() { return under(yf, gf, x); });
  for (auto& rw : repsOf(w, 0)) for (auto& rx : repsOf(x, 0)) { if (rx.elt!=minElt(x) && rw.elt!=minElt(w)) continue; BV b = bind(w, rw, "⊏"); BV d = underOf(constF(y), b); for (int sh = 0; sh < 2; sh++) { dirty(n); Rep r = rx; r.shared = sh; call1(ex, show(y)+"⌾("+show(w)+"⊸⊏)", d, x, r, e); } cb_dec(d); }
}
static void takes(Ex& ex) { // ↑ ↓ ⌽ ⥊ with every count
  const char* gn = ex.of(vector<const char*>{"↑", "↓", "⌽", "⥊"}); string g = gn; size_t n = ex.of(vector<size_t>{1, 3, 8, 9, 64, 67}); int k = ex.pick(2*n+1); k-= n; int fam = ex.of(FAMS); int col = ex.pick(2); if (g=="⥊" && k<0) return; if (!ex.thorough && n>9 && k%7 && std::abs(k)!=(int)n) return; Val x = filled(famArr(fam, col? Sh{n, 3} : Sh{n}, 100, 4)), w((double)k); F1 gf = W2(gn, w); Val p = gf(positions(x)); BV b = bind(w, {}, gn);
  for (int rf : FAMS) { Val y = famArr(rf, p.sh(), 150, 8); Outcome e = outcomeOf([&]() { return under([&](const Val&) { return y; }, gf, x); }); BV d = underOf(constF(y), cb_inc(b)); call1(ex, "(…)⌾("+show(w)+"⊸"+g+")", d, x, {}, e); call1(ex, "(…)⌾("+show(w)+"⊸"+g+")", d, x, {.shared=true}, e); call1(ex, "(…)⌾(…⊸"+g+")", d, x, {.elt=CE_B}, e); call1(ex, "(…)⌾(…⊸"+g+")", d, x, {.slice=3}, e); cb_dec(d); ex.tick(); }
  cb_dec(b);
}
static void dyUnder(Ex& ex) { // 𝕨𝔽⌾𝔾𝕩
  static const vector<G> GS = {{"⊢", A1("⊢"), A1("⊢")}, {"⌽", A1("⌽"), A1("⌽")}, {"⍉", A1("⍉"), ANY}, {"⥊", A1("⥊")}, {"⊑", A1("⊑")}, {"(1⊸⊏)", W2("⊏", Val(1))}, {"(⟨1,0⟩⊸⊏)", W2("⊏", numsV({1, 0}))}, {"(1⊸↓)", W2("↓", Val(1))}}; const G& g = ex.of(GS); const char* f = ex.of(vector<const char*>{"+", "∾", "⊣", "⊢", "=", "⋈", "×", "-"}); static const vector<Sh> S = {{2}, {3}, {2,2}, {2,3}, {3,2}}; const Sh& a = ex.of(S); const Sh& b = ex.of(S); int fa = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_C8, FAM_F64}), fb = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_C16, FAM_F64}); int wk = ex.pick(4); Val w = wk==0? famArr(fa, a, 100, 3) : wk==1? famArr(fa, a, 100, 3).it()[0] : wk==2? unitOf(famArr(fa, a, 100, 3).it()[0]) : Val::vec({Val(5)}), x = famArr(fb, b, 100, 4); if (wk && fa!=FAM_I8 && fa!=FAM_C8) return; string fs = f;
  Outcome e = outcomeOf([&]() { Val gw = g.f(w); return under([&](const Val& q) { return p2(fs, gw, q); }, g.f, x, g.inv); }); BV d = underOf(cb_inc(fnOf(f)), cb_inc(fnOf(g.src))); cross2(ex, fs+"⌾"+g.src, d, w, x, e, 1, 1); cb_dec(d);
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C11"; c.assumptions = {"structural 𝔾 that only the self-hosted runtime handles, and computational 𝔾, are absent from this build"};
  c.init = []() {
    cb_init(); for (auto g : {"⊢", "-", "⌽", "⋈", "⊑", "⍋"}) { string s = g; FS.push_back({s, [s](const Val& a) { return p1(s, a); }}); } FS.push_back({"(1000⊸+)", W2("+", Val(1000))}); FS.push_back({"((1÷2)⊸×)", W2("×", Val(0.5))}); FS.push_back({"(300˙¨)", [](const Val& a) { return each1([](const Val&) { return Val(300); }, a); }}); FS.push_back({"('x'˙¨)", [](const Val& a) { return each1([](const Val&) { return Val::chr('x'); }, a); }}); FS.push_back({"(⟨1,'a'⟩˙¨)", [](const Val& a) { return each1([](const Val&) { return Val::vec({Val(1), Val::chr('a')}); }, a); }}); FS.push_back({"(⋈¨)", [](const Val& a) { return each1([](const Val& q) { return Val::vec({q}); }, a); }}); FS.push_back({"(1↓⊢)", W2("↓", Val(1))}); FS.push_back({"!", A1("!")});
    for (auto& f : FS) fnOf(f.src); for (auto g : {"⌾", "⊸", "˙", "¨", "⊏", "⊑", "/", "↑", "↓", "⥊", "⌽", "⍉", "<", "⋈"}) fnOf(g);
  };
  c.perRun = gcEvery(300); c.after = sharedIntact;
  c.sc = {{"monadic", 3, monadic, 3, "16 monadic functions and compositions × 17 shapes × 10 families × 14 functions and up to 15 constants × representations"},
          {"boxes", 3, boxes, 3, "< and ⋈"},
          {"dyadic", 3, dyadic, 3, "8 functions with each of 36 left arguments × 17 shapes × 10 families × all replacements × representations"},
          {"every-position", 3, everyPos, 3, "lists of up to 66 items: a replacement of each of 26 values at every position, in six ways"},
          {"lists", 3, lists, 3, "⊏ and / on lists of every length up to 70 (140): 6 patterns, 10 × 10 families, index types"},
          {"cells", 4, cellSel, 3, "⊏ with up to 5 indices into 1–300 cells of 0–8 items: every index type, 10 × 10 families, replacements of repeated cells that agree or not"},
          {"takes", 3, takes, 3, "↑ ↓ ⌽ ⥊ with every count on lists of up to 67 items and tables"},
          {"dyadic-under", 3, dyUnder, 3, "𝕨𝔽⌾𝔾𝕩"}};
  return mainMC(argc, argv, c);
}
