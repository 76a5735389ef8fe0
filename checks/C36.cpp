// Fill elements: what an array pads with, where it says so, is what its making defines - for every function, storage form and history.
#include "gen.hpp"
#include <optional>
#ifndef EACH_FILLS
#define EACH_FILLS 0 /* the default: ¨ and ⌜ of nothing keep the argument */
#endif
using namespace bq;
using std::optional;
typedef optional<Val> Fill; // no value: not known
static Fill fillB(BV b) { BV f; if (cb_kind(b)!=CK_ARR) { Val v = fromB(b); if (v.isNum()) return Val(0); if (v.isChr()) return Val::chr(' '); return {}; } if (!cb_fill(b, &f)) return {}; return fromB(f); }
static bool proto(const Val& v, Val& r) { // the prototype of a value, if it has one
  if (v.isNum()) { r = Val(0); return true; } if (v.isChr()) { r = Val::chr(' '); return true; } if (!v.isArr()) return false; vector<Val> it; for (auto& x : v.it()) { Val q; if (!proto(x, q)) return false; it.push_back(q); } r = Val::arr(v.sh(), it); return true; }
static Fill protoOf(const Val& v) { Val r; if (proto(v, r)) return r; return {}; }
static bool wellFormed(const Val& f) { if (f.isNum()) return f.n==0; if (f.isChr()) return f.c==' '; if (!f.isArr()) return false; for (auto& x : f.it()) if (!wellFormed(x)) return false; return true; }
static Fill common(const vector<Val>& it) { Fill r; for (size_t i = 0; i < it.size(); i++) { Fill p = protoOf(it[i]); if (!p || (i && !same(*p, *r))) return {}; r = p; } return r; }
static string showF(const Fill& f) { return f? show(*f) : "no fill"; }
static Fill both(const Fill& a, const Fill& b) { if (a && b && same(*a, *b)) return a; return {}; }
static Fill apply1(const string& g, const Fill& x) { if (!x) return {}; Outcome o = outcomeOf([&]() { return p1(g, *x); }); if (o.err || o.unspec) return {}; return protoOf(o.v); }
static Fill apply2(const string& g, const Fill& w, const Fill& x) { if (!w || !x) return {}; Outcome o = outcomeOf([&]() { return p2(g, *w, *x); }); if (o.err || o.unspec) return {}; return protoOf(o.v); }
struct Arg { Val v; Fill f; string nm; };
// 'may': what the definition gives; 'must': it has to be known
static void judgeFill(Ex& ex, const string& what, BV r, const Fill& may, bool must, const Fill& alt = {}) {
  Fill got = fillB(r); ex.compared(); Val rv = fromB(r); if (!rv.isArr()) return;
  if (got && !wellFormed(*got)) ex.fail("%s\n  has the fill %s, which is not one", what.c_str(), showF(got).c_str());
  if (got && !(may && same(*got, *may)) && !(alt && same(*got, *alt))) { Fill c = common(rv.it()); if (!(c && same(*c, *got))) ex.fail("%s\n  gives %s with the fill %s, expected %s", what.c_str(), show(rv).c_str(), showF(got).c_str(), showF(may).c_str()); }
  if (!got && must && may) ex.fail("%s\n  gives %s without a fill, expected the fill %s", what.c_str(), show(rv).c_str(), showF(may).c_str());
  // what overtaking appends is that fill, or an error (or 0, where the build leaves that open)
  static BV take = fnOf("{(1+≠𝕩)↑𝕩}"); if (rv.rank()==1 && rv.ia()<40) { BV t; int rc = cb_c1(take, cb_inc(r), &t); ex.compared(); if (rc) { if (got) ex.fail("%s\n  has the fill %s but cannot be padded: %s", what.c_str(), showF(got).c_str(), cb_err()); } else { Val tv = fromB(t); if (got && !same(tv.it().back(), *got)) ex.fail("%s\n  has the fill %s but is padded with %s", what.c_str(), showF(got).c_str(), show(tv.it().back()).c_str()); cb_dec(t); } }
  ex.outcome(hashS(showF(got)));
}
static vector<Arg> pool(bool th) { // arrays of each kind and shape, each with what may be stored for it
  vector<Arg> r; vector<Sh> S = {{3}, {0}, {1}, {2,3}, {0,2}, {2,0}, {}}; if (th) { S.push_back({9}); S.push_back({1,2,2}); }
  for (auto& s : S) for (int fam = 0; fam < FAM_N; fam++) r.push_back({famArr(fam, s, 90, 3), {}, famName(fam)});
  for (auto& s : S) { size_t n = prod(s); auto fillWith = [&](const Val& a, const Val& b) { vector<Val> it; for (size_t i = 0; i < n; i++) it.push_back(i%2? a : b); return Val::arr(s, it); };
    for (auto& p : vector<std::pair<Val, Val>>{{numsV({1, 2}), numsV({3, 4})}, {Val::str("ab"), Val::str("cd")}, {Val::vec({Val(1), Val::chr('q')}), Val::vec({Val(5), Val::chr('r')})}, {Val::str("ab"), Val::str("abc")}, {unitOf(Val(4)), unitOf(Val(5))}, {Val::vec({}), Val::vec({})}}) { Val v = fillWith(p.first, p.second); r.push_back({v, {}, "boxes"}); Val f; if (proto(p.first, f)) r.push_back({v.withFill(f), f, "boxes+fill"}); } }
  return r;
}
static vector<Arg> POOL;
static BV make(const Arg& a, const Rep& r) { return toB(a.v, r); }
enum R1 { KEEP, ZERO, ENCL, MERGE, SOLO, PAIR, SAME_ARITH, JOIN, ANYF };
struct F1d { const char* g; int rule; };
static const F1d ONE[] = {{"⥊", KEEP}, {"⌽", KEEP}, {"⍉", KEEP}, {"⊢", KEEP}, {"⊣", KEEP}, {"⍷", KEEP}, {"∧", KEEP}, {"∨", KEEP}, {"»", KEEP}, {"«", KEEP}, {"⊏", KEEP}, {"⍋", ZERO}, {"⍒", ZERO}, {"⊐", ZERO}, {"⊒", ZERO}, {"∊", ZERO}, {"≢", ZERO}, {"<", ENCL}, {">", MERGE}, {"≍", SOLO}, {"⋈", PAIR}, {"-", SAME_ARITH}, {"¬", SAME_ARITH}, {"⌊", SAME_ARITH}, {"|", SAME_ARITH}, {"×", SAME_ARITH}, {"√", SAME_ARITH}, {"⋆", SAME_ARITH}, {"÷", SAME_ARITH}, {"/0⌈3⌊⊢", ZERO}, {"⥊⌾⌽", KEEP}, {"⊢⌾(1⊸↑)", KEEP}, {"1⊸↓", KEEP}, {"(0-1)⊸↓", KEEP}, {"2⊸↑", KEEP}, {"5⊸↑", KEEP}, {"(0-5)⊸↑", KEEP}, {"1⊸⌽", KEEP}, {"0⊸↓", KEEP}, {"0⊸↑", KEEP}, {"2⊸/", KEEP}, {"0⊸/", KEEP}, {"⟨2,2⟩⊸⥊", KEEP}, {"0⊸⥊", KEEP}, {"7⊸⥊", KEEP}, {"⟨⟩⊸⥊", KEEP}, {"⟨2,∘⟩⊸⥊", KEEP}, {"⟨∘,2⟩⊸⥊", KEEP}, {"⟨↑,2⟩⊸⥊", KEEP}, {"1⊸↕", KEEP}, {"0⊸↕", KEEP}, {"2⊸↕", KEEP}, {"⟨0⟩⊸⊏", KEEP}, {"⟨⟩⊸⊏", KEEP}, {"⟨0,0-1⟩⊸⊏", KEEP}, {"0⊸⊏", KEEP}, {"(↕0)⊸⊏", KEEP}, {"(⍋)⊸⊏", KEEP}, {"(≠⥊1˙)⊸/", KEEP}, {"(≠⥊0˙)⊸/", KEEP}, {"⌽˘", KEEP}, {"⊣˘", KEEP}, {"⟨1,1⟩⊸⌽", KEEP}, {"⟨⟨0⟩,⟨0,0⟩⟩⊸⊏", KEEP}, {"⟨⟨1,0⟩,⟨1,0,1⟩⟩⊸⊏", KEEP}, {"⟨⟨⟩,⟨0⟩⟩⊸⊏", KEEP}, {"⟨1,2⟩⊸↑", KEEP}, {"⟨5,4⟩⊸↑", KEEP}, {"⟨0-3,4⟩⊸↑", KEEP}, {"⟨1,1⟩⊸↓", KEEP}, {"⟨9,9⟩⊸↓", KEEP}, {"⟨0,0-1⟩⊸↓", KEEP}, {"⟨⟨1,2⟩,⟨1,0,2⟩⟩⊸/", KEEP}, {"⟨⟨0,0⟩,⟨1,0,2⟩⟩⊸/", KEEP}, {"⟨0,1,2⟩⊸/", KEEP}, {"⟨3,0⟩⊸/", KEEP}, {"1⊸⍉", KEEP}, {"⟨1,0⟩⊸⍉", KEEP}, {"⟨0,0⟩⊸⍉", KEEP}, {"⟨1,1⟩⊸↕", KEEP}, {"⟨2,2⟩⊸↕", KEEP}, {"3⊸↕", KEEP}, {"100⊸⥊", KEEP}, {"100⊸↑", KEEP}, {"33⊸/", KEEP}, {"⊢∾1⊸↑", KEEP}, {"∾˜", KEEP}, {"⊢»⊢", KEEP}, {"∾⟜⌽", KEEP}, {"≍˜", KEEP}, {"⌽⍟2", KEEP}, {"⍉⁼", KEEP}, {"⌽⁼", KEEP}, {"⊢`", ANYF}, {"⊣`", ANYF}, {"(2⊸×)¨", ANYF}, {"⊢¨", KEEP}, {"<¨", ANYF}, {"1⊸»", ANYF}, {"⊐˜", ZERO}, {"∊˜", ZERO}, {"⊒˜", ZERO}, {"≡¨", ZERO}, {"(1⊸+)¨", ANYF}, {"¬¨", ANYF}, {"⋆¨", ANYF}, {"(0×↕∘≠)⊸/", KEEP}, {"(0×100000×↕∘≠)⊸/", KEEP}, {"(1000×0=↕∘≠)⊸/", KEEP}};
static void monadic(Ex& ex) {
  const F1d& f = ONE[ex.pick(sizeof ONE/sizeof*ONE)]; string src = f.g; BV fn = fnOf("("+src+")");
  const Arg& a = ex.of(POOL);
  for (auto& rep : repsOf(a.v, 1)) { BV b = make(a, rep); Fill fx = fillB(b); BV keep = cb_inc(b), r; int rc = cb_c1(fn, b, &r); ex.op(); string what = src+" "+show(a.v)+" (stored as "+rep.str()+", fill "+showF(fx)+")"; Fill after = fillB(keep); if (bool(after)!=bool(fx) || (fx && !same(*fx, *after))) ex.fail("%s\n  changes the fill of its argument to %s", what.c_str(), showF(after).c_str()); cb_dec(keep); if (rc) continue;
    Fill may, alt = common(a.v.it()); bool must = false; switch (f.rule) { case KEEP: may = fx; must = bool(fx) && src!="⊢¨" && src!="⌽˘" && src!="⊣˘" && src.find("⌾")==string::npos; if (cb_kind(r)==CK_ARR && (src=="⊏" || src=="0⊸⊏") && a.v.rank()==1) { may = {}; Val it = fromB(r); if (it.isArr()) { cb_dec(r); continue; } } break; case ZERO: may = Val(0); must = src!="≡¨"; if (src=="≡¨" && a.v.ia()==0 && !EACH_FILLS) alt = fx; break; case ENCL: may = protoOf(a.v); must = false; if (fx && a.v.ia()==0) may = Fill(Val::arr(a.v.sh(), {})); break;
      case SOLO: may = fx; must = bool(fx); break; case PAIR: may = protoOf(a.v); break; case SAME_ARITH: may = apply1(src, fx); alt = {}; if (a.v.ia()==0 && !may) alt = fx; break; /* (no function of no characters fails) */ case MERGE: { bool e = false; for (auto& x : a.v.it()) if (x.isArr() && !x.ia()) e = true; if (e) { cb_dec(r); continue; } vector<Val> fs; if (a.v.ia()==0) { may = {}; if (fx && fx->isArr()) { may = fx->ia()? common(fx->it()) : fx->fill()? Fill(*fx->fill()) : Fill(); if (!may) alt = Val(0); } else may = fx; } else { may = {}; alt = {}; } if (a.v.ia()) { Fill c; bool first = true; for (auto& x : a.v.it()) { Fill q = x.isArr()? x.ia()? common(x.it()) : Fill() : protoOf(x); if (x.isArr() && !x.ia()) { c = {}; first = false; continue; } if (first) c = q; else c = both(c, q); first = false; } may = c; alt = fx; } break; }
      default: { Val rv = fromB(r); may = fx; alt = Val(0); if (src.find("<¨")!=string::npos) { alt = {}; may = fx? Fill(unitOf(*fx)) : Fill(); if (a.v.ia()==0 && !EACH_FILLS) alt = fx; } } }
    if (!fx && !may) may = Val(0); judgeFill(ex, what, r, may, must, alt); cb_dec(r); }
  ex.tick();
}
enum R2 { LIKE_X, ZERO2, BOTH, ARITH, NONE2 };
struct F2d { const char* g; int rule; };
static const F2d TWO[] = {{"∾", BOTH}, {"≍", BOTH}, {"»", BOTH}, {"«", BOTH}, {"+", ARITH}, {"-", ARITH}, {"×", ARITH}, {"÷", ARITH}, {"⌊", ARITH}, {"⌈", ARITH}, {"|", ARITH}, {"⋆", ARITH}, {"¬", ARITH}, {"=", ARITH}, {"≠", ARITH}, {"<", ARITH}, {"≥", ARITH}, {"∧", ARITH}, {"∨", ARITH}, {"⊐", ZERO2}, {"∊", ZERO2}, {"⊒", ZERO2}, {"⍷", ZERO2}, {"⍋", ZERO2}, {"⍒", ZERO2}, {"⊣", NONE2}, {"⊢", LIKE_X}, {"⋈", NONE2}};
static void dyadic(Ex& ex) {
  const F2d& f = ex.of(vector<F2d>(TWO, TWO+sizeof TWO/sizeof*TWO)); string g = f.g; const Arg& w = ex.of(POOL); static vector<Arg> XS; if (XS.empty()) { XS = POOL; XS.push_back({Val(3), {}, "number"}); XS.push_back({Val::chr('c'), {}, "character"}); } const Arg& x0 = ex.of(XS); bool flip = !x0.v.isArr() && ex.pick(2);
  const Arg& a = flip? x0 : w; const Arg& b = flip? w : x0; Outcome o; BV fn = fnOf(g);
  vector<Rep> ra = a.v.isArr()? repsOf(a.v, 0) : vector<Rep>{{}}, rb = b.v.isArr()? repsOf(b.v, 0) : vector<Rep>{{}}; if (!ex.thorough && ra.size()>3 && rb.size()>3) { ra.resize(3); rb.resize(3); }
  for (auto& p : ra) for (auto& q : rb) { BV bw = make(a, p), bx = make(b, q), r; Fill fw = fillB(bw), fx = fillB(bx); int rc = cb_c2(fn, bw, bx, &r); ex.op(); if (rc) continue; string what = show(a.v)+" ("+p.str()+", fill "+showF(fw)+") "+g+" "+show(b.v)+" ("+q.str()+", fill "+showF(fx)+")"; Fill may, alt; bool must = false;
    switch (f.rule) { case LIKE_X: may = fx; must = true; break; case ZERO2: may = Val(0); must = fx && fw && g!="⍷"; break; case ARITH: may = apply2(g, fw, fx); must = false; break; case BOTH: { may = both(fw, fx); must = bool(may); if (g=="∾" || g=="»" || g=="«") { if (a.v.isArr() && a.v.ia()==0) alt = fx; } break; } case NONE2: if (g=="≡" || g=="⊐") alt = Val(0); if (g=="⊣") { may = fw; must = true; } else { Fill pa = protoOf(a.v), pb = protoOf(b.v); may = both(pa, pb); } break; }
    judgeFill(ex, what, r, may, must && may, alt); cb_dec(r); }
  ex.tick();
}
// --- ¨ and ⌜ with a function on both sides
static void eaches(Ex& ex) {
  static const vector<string> G = {"+", "-", "=", "∾", "⋈", "⊣", "⊢", "≡", "×", "⊐"}; const string& g = ex.of(G); int m = ex.pick(4); const char* md = m<2? "¨" : "⌜"; const Arg& a = ex.of(POOL); const Arg& b = ex.of(POOL); if (!ex.thorough && (a.v.rank()+b.v.rank()>2)) return; static std::map<string, BV> D; BV& fn = D[g+std::to_string(m)]; if (!fn) fn = derive1(md, fnOf(m&1? "{𝕨"+g+"𝕩}" : g)); // (as itself and inside a block)
  vector<Rep> ra = repsOf(a.v, 0), rb = repsOf(b.v, 0); if (ra.size()>2) ra.resize(2); if (rb.size()>2) rb.resize(2);
  for (auto& p : ra) for (auto& q : rb) { BV bw = make(a, p), bx = make(b, q), r; Fill fw = fillB(bw), fx = fillB(bx); int rc = cb_c2(fn, bw, bx, &r); ex.op(); if (rc) continue; string what = show(a.v)+" ("+p.str()+", fill "+showF(fw)+") "+g+md+" "+show(b.v)+" ("+q.str()+", fill "+showF(fx)+")"+(m&1? " (in a block)" : ""); bool none = cb_ia(r)==0; Fill may = apply2(g, fw, fx), alt; if (none && !EACH_FILLS) { Fill got = fillB(r); if (got && ((fw && same(*fw, *got)) || (fx && same(*fx, *got)))) { cb_dec(r); continue; } alt = Val(0); }
    if (g=="≡" || g=="⊐") alt = Val(0); if (g=="⊣") { may = fw; alt = common(a.v.it()); } if (g=="⊢") { may = fx; alt = common(b.v.it()); } judgeFill(ex, what, r, may, false, alt); cb_dec(r); }
  ex.tick();
}
// --- ∾ and > of nested arrays: the fill all items share
static void joins(Ex& ex) {
  static const vector<Sh> S = {{1}, {2}, {3}, {4}, {1,2}, {2,1}, {2,2}, {1,3}, {3,1}, {1,1,2}}; const Sh& s = ex.of(S); size_t n = prod(s); bool merge = ex.pick(2); int r = 1+ex.pick(2); if (r<(int)s.size() && !merge) return; if (s.size()>2) return;
  auto sh = [&](size_t k) { Sh h(r, k); return h; };
  vector<Val> KINDS; for (size_t len : {2, 0}) { Sh h = r==1? Sh{len} : Sh{2, len}; size_t m = prod(h); auto rep = [&](const Val& v) { return Val::arr(h, vector<Val>(m, v)); };
    KINDS.push_back(rep(Val(3)).withFill(Val(0))); KINDS.push_back(rep(Val::chr('x')).withFill(Val::chr(' '))); KINDS.push_back(rep(numsV({1,2})).withFill(numsV({0,0}))); KINDS.push_back(rep(Val::str("ab")).withFill(Val::str("  "))); if (!len) break; }
  size_t half = KINDS.size()/2; int lenk = ex.pick(2); vector<Val> it; vector<Fill> fs; for (size_t i = 0; i < n; i++) { const Val& k = KINDS[lenk*half+ex.pick((int)half)]; it.push_back(k); }
  Val v = Val::arr(s, it); BV fn = fnOf(merge? ">" : "∾"), b, r2;
  vector<BV> items; for (auto& x : it) { BV q = toB(x); Fill f = fillB(q); fs.push_back(f); items.push_back(q); }
  b = cb_mkarr(CE_B, n, (int)s.size(), s.data(), items.data()); string what = string(merge? ">" : "∾")+" "+show(v)+" with the fills"; for (auto& f : fs) what += " "+showF(f)+",";
  int rc = cb_c1(fn, b, &r2); ex.op(); if (rc) { ex.tick(); return; } Fill may = fs[0]; for (auto& f : fs) may = both(may, f); Fill alt = may? Fill() : Fill(Val(0)); if (!may && !cb_ia(r2)) { Fill g = fillB(r2); for (auto& f : fs) if (g && f && same(*f, *g)) alt = f; } /* of no elements: the one of any item */ judgeFill(ex, what, r2, may, bool(may), alt); cb_dec(r2); ex.tick();
}
// --- histories: what a chain of functions does to the fill of a list
static const vector<const char*> CH = {"⌽", "1⊸↓", "0⊸↑", "5⊸↑", "(0-4)⊸↑", "7⊸⥊", "∾˜", "⍷", "«", "2⊸/", "(0⥊⟨⟩)⊸⊏", "⟨2,2⟩⊸⥊", "⥊", "⍉", "2⊸↕", "1⊸⌽", "⊢", "⊏", "≍", "(≠⥊⟨1,0⟩˙)⊸/"}; 
static void chains(Ex& ex) {
  const Arg& a = ex.of(POOL); if (!ex.thorough && a.v.rank()>1) return; int n = 2+ex.pick(2); vector<const char*> fs; for (int k = 0; k < n; k++) fs.push_back(ex.of(CH)); auto reps = repsOf(a.v, 0); if (n==3 && !ex.thorough) { reps = {Rep()}; }
  for (auto& rep : reps) { BV b = make(a, rep); Fill fx = fillB(b); string what = show(a.v)+" ("+rep.str()+", fill "+showF(fx)+")"; bool ok = true, fell = false; for (auto f : fs) { BV r; what = string(f)+" "+what; if (cb_kind(b)!=CK_ARR) { fell = true; break; } if (cb_rank(b)<=1 && !strcmp(f, "⊏")) { fell = true; break; } int rc = cb_c1(fnOf(string("(")+f+")"), b, &r); ex.op(); if (rc) { ok = false; break; } b = r; } if (!ok) continue; if (!fell) judgeFill(ex, what, b, fx? fx : Fill(Val(0)), bool(fx), common(a.v.it())); cb_dec(b); }
  ex.tick();
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C36"; c.assumptions = {"a function may leave the fill of its result unknown unless it moves, repeats or selects the elements of arrays whose fills are known and equal, or gives numbers by definition", "a result whose elements all have one prototype may have that as its fill"};
  c.init = []() { cb_init(); POOL = pool(true); for (auto& f : ONE) fnOf(string("(")+f.g+")"); for (auto& f : TWO) fnOf(f.g);  for (auto f : CH) fnOf(string("(")+f+")"); fnOf("{(1+≠𝕩)↑𝕩}"); fnOf("∾"); fnOf(">"); };
  c.perRun = gcEvery(50);
  c.sc = {{"one", 2, monadic, 3, "functions of one argument × arrays of 9 shapes and 22 kinds × all representations"}, {"two", 2, dyadic, 3, "28 functions × all pairs of those arrays"}, {"eaches", 2, eaches, 3, "¨ and ⌜ of 10 functions, as they are and in blocks, × all pairs"}, {"joins", 3, joins, 3, "∾ and > of every array of up to four items of four kinds, empty and not"}, {"chains", 3, chains, 3, "every chain of two or three of 20 functions"}};
  return mainMC(argc, argv, c);
}
