// Combinators, trains, Repeat and Choose: every composition up to a depth of uninterpreted functions and constants,
// against the reference reduction. An uninterpreted function returns ⟨name, arguments⟩, so the result is the complete call tree.
#include "gen.hpp"
#include <memory>
using namespace bq;
enum { SYM, PRIM, CONST, FAIL, ATOP, FORK, CT_ATOP, OVER, BEFORE, AFTER, VALENCE, CHOOSE, SELF, CONSTF, CATCH_, REPEAT };
struct T { int k; string src; Val v; vector<std::shared_ptr<T>> a; };
typedef std::shared_ptr<T> P;
static P mk(int k, string src, vector<P> a, Val v = Val()) { P p = std::make_shared<T>(); p->k = k; p->src = src; p->a = a; p->v = v; return p; }
static Val FUNV() { Val r; r.k = Val::FUN; r.n = 0; return r; }
static bool callable(const P& t) { return t->k!=CONST; }
static Val valueOf(const P& t) { return callable(t)? FUNV() : t->v; }
static int budget;
static Val ev(const P& t, const Val* w, const Val& x);
static Val evI(long n, const P& f, const Val* w, const Val& x) { if (n<0) unspec(); if (n>40) unspec(); Val r = x; for (long i = 0; i < n; i++) r = ev(f, w, r); return r; }
static bool funIn(const Val& v) { if (v.k==Val::FUN) return true; if (v.isArr()) for (auto& e : v.it()) if (funIn(e)) return true; return false; }
static Val pickN(const Val& n, const P& f, const Val* w, const Val& x) { if (n.isArr()) { vector<Val> r; for (auto& e : n.it()) r.push_back(pickN(e, f, w, x)); return Val::arr(n.sh(), r); } return evI(n.n, f, w, x); }
static void boundsN(const Val& n, long& lo, long& hi) { if (n.isArr()) { for (auto& e : n.it()) boundsN(e, lo, hi); return; } if (!n.isNum() || n.n!=std::floor(n.n)) err(); lo = std::min(lo, (long)n.n); hi = std::max(hi, (long)n.n); }
static Val ev(const P& t, const Val* w, const Val& x) {
  if (--budget<0) unspec();
  auto& a = t->a;
  switch (t->k) {
    case SYM: return Val::vec({t->v, w? Val::vec({*w, x}) : Val::vec({x})});
    case PRIM: if (t->src[0]=='{') return Val::vec({Val::chr('b'), Val::vec({x})}); if (t->src=="⊢") return x; if (t->src=="⊣") return w? *w : x; if (t->src=="⋈") return w? Val::vec({*w, x}) : Val::vec({x}); if (t->src=="+") { if (funIn(x) || (w && funIn(*w))) err(); return w? p2("+", *w, x) : p1("+", x); } abort();
    case CONST: return t->v;
    case FAIL: err(t->src=="(\"e1\"!0˙)"? "e1" : "e2");
    case ATOP: case CT_ATOP: { Val q = ev(a[1], w, x); return ev(a[0], nullptr, q); }
    case FORK: { Val h = ev(a[2], w, x); Val f = ev(a[0], w, x); return ev(a[1], &f, h); }
    case OVER: { Val r = ev(a[1], nullptr, x); if (!w) return ev(a[0], nullptr, r); Val l = ev(a[1], nullptr, *w); return ev(a[0], &l, r); }
    case BEFORE: { Val l = ev(a[0], nullptr, w? *w : x); return ev(a[1], &l, x); }
    case AFTER: { Val r = ev(a[1], nullptr, x); return ev(a[0], w? w : &x, r); }
    case VALENCE: return ev(a[w? 1 : 0], w, x);
    case SELF: return ev(a[0], &x, w? *w : x);
    case CONSTF: return valueOf(a[0]);
    case CATCH_: try { return ev(a[0], w, x); } catch (Err&) { return ev(a[1], w, x); }
    case CHOOSE: { Val i = ev(a[0], w, x); if (i.isArr()) { if (i.rank()!=1 || i.ia()!=1) err(); i = i.it()[0]; if (!i.isNum()) err(); } if (!i.isNum() || i.n!=std::floor(i.n)) err(); long n = i.n, m = a.size()-1; if (n<0) n+= m; if (n<0 || n>=m) err(); return ev(a[1+n], w, x); }
    case REPEAT: { Val n = ev(a[1], w, x); long lo = 0, hi = 0; if (funIn(n)) err(); boundsN(n, lo, hi); if (lo<0) unspec(); Val r = x; if (!n.isArr()) return evI(n.n, a[0], w, x); evI(hi, a[0], w, x); return pickN(n, a[0], w, x); }
  }
  abort();
}
static std::map<string, BV> built;
static BV val(const P& t) { // the implementation's value, put together from the parts; owned by the cache
  auto it = built.find(t->src); if (it!=built.end()) return it->second;
  auto m2 = [&](const char* m, const P& f, const P& g) { BV r; if (cb_m2(fnOf(m), cb_inc(val(f)), cb_inc(val(g)), &r)) _exit(4); return r; };
  auto m1 = [&](const char* m, const P& f) { BV r; if (cb_m1(fnOf(m), cb_inc(val(f)), &r)) _exit(4); return r; };
  BV r; auto& a = t->a;
  switch (t->k) {
    case CONST: r = funIn(t->v)? cb_inc(fnOf(t->src)) : toB(t->v); break;
    case ATOP: r = m2("∘", a[0], a[1]); break;
    case OVER: r = m2("○", a[0], a[1]); break; case BEFORE: r = m2("⊸", a[0], a[1]); break; case AFTER: r = m2("⟜", a[0], a[1]); break;
    case VALENCE: r = m2("⊘", a[0], a[1]); break; case CATCH_: r = m2("⎊", a[0], a[1]); break; case REPEAT: r = m2("⍟", a[0], a[1]); break;
    case SELF: r = m1("˜", a[0]); break; case CONSTF: r = m1("˙", a[0]); break;
    case CHOOSE: { vector<BV> it; for (size_t i = 1; i < a.size(); i++) it.push_back(cb_inc(val(a[i]))); size_t s[1] = {it.size()}; BV g = cb_mkarr(CE_B, it.size(), 1, s, it.data()); if (cb_m2(fnOf("◶"), cb_inc(val(a[0])), g, &r)) _exit(4); break; }
    case FORK: if (cb_fork(cb_inc(val(a[0])), cb_inc(val(a[1])), cb_inc(val(a[2])), &r)) _exit(4); break;
    case CT_ATOP: if (cb_atop(cb_inc(val(a[0])), cb_inc(val(a[1])), &r)) _exit(4); break;
    default: r = cb_inc(fnOf(t->src));
  }
  return built[t->src] = r;
}
static string par(const P& t) { return t->a.empty()? t->src : "("+t->src+")"; }
static const char* OPN[] = {"", "", "", "", "∘", "", "", "○", "⊸", "⟜", "⊘", "◶", "˜", "˙", "⎊", "⍟"};
static P bin(int k, const P& f, const P& g) { if (k==CT_ATOP) return mk(k, par(f)+" "+par(g), {f, g}); return mk(k, par(f)+OPN[k]+par(g), {f, g}); }
static P un(int k, const P& f) { return mk(k, par(f)+OPN[k], {f}); }
static P fork(const P& f, const P& g, const P& h) { return mk(FORK, par(f)+" "+par(g)+" "+par(h), {f, g, h}); }
static P choose(const P& i, vector<P> l) { string s = par(i)+"◶⟨"; vector<P> a = {i}; for (size_t j = 0; j < l.size(); j++) { s+= (j? "," : "")+l[j]->src; a.push_back(l[j]); } return mk(CHOOSE, s+"⟩", a); }
static P num(double d) { string s = d<0? strf("(0-%g)", -d) : d==0.5? "(1÷2)" : strf("%g", d); return mk(CONST, s, {}, Val(d)); }
static vector<P> L0, SYMS, L1; static P F, G, H, E1, E2, C3, CL, BL;
static const vector<int> BINS = {ATOP, CT_ATOP, OVER, BEFORE, AFTER, VALENCE, CATCH_};
static bool derivable(const P& t) { // ⍟ and ◶ with a function as count or index are left to their own scenario
  return true; }
static vector<P> grow(const vector<P>& A, const vector<P>& B, bool forks) {
  vector<P> r; for (auto& f : A) { r.push_back(un(SELF, f)); r.push_back(un(CONSTF, f)); }
  for (auto& f : A) for (auto& g : B) for (int k : BINS) { if (k==CT_ATOP && !callable(g)) continue; r.push_back(bin(k, f, g)); }
  if (forks) for (auto& f : A) for (auto& g : B) for (auto& h : A) if (callable(h)) r.push_back(fork(f, g, h));
  return r;
}
static vector<std::pair<Val, Rep>> ARGS;
static bool hasErr(const P& t) { if (t->k==FAIL) return true; for (auto& a : t->a) if (hasErr(a)) return true; return false; }
static Outcome want(const P& t, const Val* w, const Val& x, string* msg) { Outcome o; budget = 3000; try { o.v = ev(t, w, x); } catch (Err& e) { o.err = true; *msg = e.m; } catch (Unspec&) { o.unspec = true; } return o; }
static void check(Ex& ex, const P& t, BV f, int argsets) {
  static const vector<Val> XS = {Val(7), Val::vec({Val(5), Val(6)}), Val::str("ab"), Val::vec({Val::vec({Val(1)}), Val(2)})};
  bool he = hasErr(t);
  for (int i = 0; i < argsets; i++) for (int dy = 0; dy < 2; dy++) for (int sh = 0; sh < 2; sh++) {
    const Val& x = XS[i]; const Val& w = XS[(i+2)%4]; string msg; Outcome o = want(t, dy? &w : nullptr, x, &msg); if (i==0 && sh) continue; // 7 is not an array
    if (o.unspec) continue;
    BV bx = toB(x), bw = dy? toB(w) : 0, kx = 0, kw = 0, r; if (sh) { kx = cb_inc(bx); if (dy) kw = cb_inc(bw); }
    int rc = dy? cb_c2(f, bw, bx, &r) : cb_c1(f, bx, &r);
    auto what = [&]() { return strf("%s%s (%s) %s%s", dy? show(w).c_str() : "", "", t->src.c_str(), show(x).c_str(), sh? "   [shared]" : ""); };
    ex.op(); ex.compared();
    if (rc || o.err || !same(r, o.v)) {
      if (!rc && (o.err || !same(r, o.v))) ex.fail("%s\n  gives    %s\n  expected %s", what().c_str(), show(fromB(r)).c_str(), o.err? "an error" : show(o.v).c_str());
      if (!o.err) ex.fail("%s\n  gives an error: %s\n  expected %s", what().c_str(), cb_err(), show(o.v).c_str());
      if (he && !msg.empty() && msg!=cb_err()) ex.fail("%s\n  fails with \"%s\": the operands are not evaluated in the right order, %s comes first", what().c_str(), cb_err(), msg.c_str());
    } else cb_dec(r);
    if (!o.err) ex.outcome(hashV(o.v));
    if (sh) { if (!same(kx, x)) ex.fail("%s\n  changed the argument to %s", what().c_str(), show(fromB(kx)).c_str()); if (dy && !same(kw, w)) ex.fail("%s\n  changed 𝕨 to %s", what().c_str(), show(fromB(kw)).c_str()); cb_dec(kx); if (dy) cb_dec(kw); }
  }
  ex.tick();
  if (ex.verbose) ex.say("%s", t->src.c_str());
}
static void once(Ex& ex, const P& t, int argsets) { // build, check, and forget the outermost value
  auto n = built.count(t->src); BV f = val(t); if (cb_kind(f)==CK_FUN) check(ex, t, f, argsets); else { } if (!n) { cb_dec(f); built.erase(t->src); }
}
static void depth1Text(Ex& ex) { // as source text: the compiler and the VM derive them
  const P& f = ex.of(L0); for (auto& g : L0) for (int k : BINS) { if (k==CT_ATOP && !(callable(f) && callable(g))) continue; P t = bin(k, f, g); BV b; if (cb_eval(("("+t->src+")").c_str(), &b)) ex.fail("%s cannot be evaluated: %s", t->src.c_str(), cb_err()); if (cb_kind(b)==CK_FUN) check(ex, t, b, 4); cb_dec(b); }
  for (auto& g : L0) for (auto& h : L0) if (callable(g) && callable(h)) { P t = fork(f, g, h); BV b; if (cb_eval(("("+t->src+")").c_str(), &b)) ex.fail("%s cannot be evaluated: %s", t->src.c_str(), cb_err()); check(ex, t, b, 2); cb_dec(b); }
  for (int k : {SELF, CONSTF}) { P t = un(k, f); BV b; if (cb_eval(("("+t->src+")").c_str(), &b)) ex.fail("%s cannot be evaluated: %s", t->src.c_str(), cb_err()); check(ex, t, b, 4); cb_dec(b); }
}
static void depthTwo(Ex& ex) { // an L1 function on either side, or on both
  size_t i = ex.pick(L1.size()); const P& f = L1[i];
  for (auto& g : L0) { for (int k : BINS) { if (!(k==CT_ATOP && !callable(g))) once(ex, bin(k, f, g), 2); once(ex, bin(k, g, f), 2); } for (auto& h : SYMS) { once(ex, fork(f, g, h), 1); once(ex, fork(g, f, h), 1); once(ex, fork(h, g, f), 1); once(ex, fork(g, h, f), 1); } }
  once(ex, un(SELF, f), 2); once(ex, un(CONSTF, f), 2);
  size_t step = ex.thorough? 1 : 5; for (size_t j = i%step; j < L1.size(); j+= step) for (int k : BINS) once(ex, bin(k, f, L1[j]), 1);
}
static vector<P> extend(const P& t) { vector<P> r = {un(SELF, t), un(CONSTF, t), bin(REPEAT, t, num(2)), choose(num(1), {F, t}), choose(un(CONSTF, num(0)), {t, C3})}; for (auto& o : {F, C3, BL, E1}) { for (int k : BINS) { r.push_back(bin(k, t, o)); r.push_back(bin(k, o, t)); } } r.push_back(fork(t, G, H)); r.push_back(fork(F, t, H)); r.push_back(fork(F, G, t)); r.push_back(fork(C3, G, t)); r.push_back(fork(CL, t, H)); return r; }
static void spine(Ex& ex, const P& t, int depth) { bool had = built.count(t->src); BV f = val(t); if (cb_kind(f)==CK_FUN) { check(ex, t, f, 1); if (depth) for (auto& e : extend(t)) spine(ex, e, depth-1); } if (!had) { cb_dec(f); built.erase(t->src); } }
static void chains(Ex& ex) { P a = ex.of(vector<P>{F, BL, C3}); vector<P> l = extend(a); P b = l[ex.pick(l.size())]; vector<P> m = extend(b); P d = m[ex.pick(m.size())]; spine(ex, d, ex.thorough? 2 : 1); }
static void chooseS(Ex& ex) {
  vector<P> I = {num(0), num(1), num(-1), num(2), num(3), num(-3), num(-4), num(0.5), mk(CONST, "'a'", {}, Val::chr('a')), mk(CONST, "⟨1⟩", {}, Val::vec({Val(1)})), mk(CONST, "⟨0-3⟩", {}, Val::vec({Val(-3)})), mk(CONST, "⟨3⟩", {}, Val::vec({Val(3)})), mk(CONST, "⟨⟩", {}, Val::vec({})), mk(CONST, "⟨0,1⟩", {}, numsV({0, 1})), F, mk(PRIM, "⊢", {}), E1};
  I.push_back(un(CONSTF, num(2))); I.push_back(bin(ATOP, num(1), F)); P i = ex.of(I); int n = ex.pick(4)+1; vector<P> pool = {F, G, C3, CL, E2, bin(ATOP, F, G), mk(PRIM, "⊢", {}), fork(F, G, H)}; vector<P> l; for (int k = 0; k < n; k++) l.push_back(pool[ex.pick(k<2? pool.size() : 3)]);
  P t = choose(i, l); once(ex, t, 2); if (n<=2) for (auto& o : {F, E2}) for (int k : BINS) { once(ex, bin(k, t, o), 1); once(ex, bin(k, o, t), 1); }
  // arguments as indices
  P u = choose(mk(PRIM, "⊢", {}), l), v = choose(mk(PRIM, "⊣", {}), l); for (double q : {0.0, 1.0, -1.0, 3.0, 4.0, -5.0, 0.25}) for (auto& c : {u, v}) { Val x(q), w(1); for (int dy = 0; dy < 2; dy++) { budget = 1000; string m; Outcome o = want(c, dy? &w : nullptr, x, &m); BV r; int rc = dy? cb_c2(val(c), toB(w), toB(x), &r) : cb_c1(val(c), toB(x), &r); judge(ex, (dy? "1 " : "")+c->src+" "+show(x), rc, r, o); } }
}
static void repeat(Ex& ex) {
  vector<P> N = {num(0), num(1), num(2), num(3), num(7), num(0.5), mk(CONST, "'a'", {}, Val::chr('a')), mk(CONST, "⟨⟩", {}, Val::vec({})), mk(CONST, "⟨0⟩", {}, numsV({0})), mk(CONST, "⟨2,0,3⟩", {}, numsV({2, 0, 3})), mk(CONST, "⟨1,1÷2⟩", {}, numsV({1, 0.5})), mk(CONST, "⟨1,'a'⟩", {}, Val::vec({Val(1), Val::chr('a')})), mk(CONST, "⟨⟨1,2⟩,0,⟨⟩⟩", {}, Val::vec({numsV({1, 2}), Val(0), Val::vec({})})), mk(CONST, "(<4)", {}, unitOf(Val(4))), mk(CONST, "(2⥊3)", {}, numsV({3, 3})), F, E1, mk(CONST, "⟨⊢⟩", {}, Val::vec({FUNV()})), un(CONSTF, num(2)), bin(ATOP, num(3), F), un(CONSTF, mk(CONST, "⟨1,2⟩", {}, numsV({1, 2}))), mk(CONST, "(1=⟨0,1,1⟩)", {}, numsV({0, 1, 1})), mk(CONST, "⟨5,4,3,2,1,0⟩", {}, numsV({5, 4, 3, 2, 1, 0}))};
  P n = ex.of(N); vector<P> fs = L0; for (size_t i = 0; i < L1.size(); i+= 7) fs.push_back(L1[i]); P f = ex.of(fs); P t = bin(REPEAT, f, n); once(ex, t, 3); if (f->a.empty()) { once(ex, bin(REPEAT, t, num(2)), 1); for (auto& o : {F, E2, C3}) for (int k : BINS) { once(ex, bin(k, t, o), 1); once(ex, bin(k, o, t), 1); } }
}
static void counts(Ex& ex) { // ⍟ on numbers: every count of 0–70 as a number, an argument, items in every order; •while
  int n = ex.pick(71); BV f = fnOf("(3⊸+)"); Val x(2); BV d, r; int rc;
  cb_m2(fnOf("⍟"), cb_inc(f), toB(Val(n)), &d); rc = cb_c1(d, toB(x), &r); judge(ex, strf("(3⊸+)⍟%d 2", n), rc, r, Outcome{false, false, Val(2+3*n)}); cb_dec(d);
  cb_m2(fnOf("⍟"), cb_inc(fnOf("+")), cb_inc(fnOf("⊣")), &d); rc = cb_c2(d, toB(Val(n)), toB(x), &r); judge(ex, strf("%d +⍟⊣ 2", n), rc, r, Outcome{false, false, Val(2+n*n)}); rc = cb_c1(d, toB(Val(n)), &r); judge(ex, strf("+⍟⊣ %d", n), rc, r, Outcome{false, false, Val(n)}); cb_dec(d);
  vector<Val> q; for (int i = 0; i < n; i++) q.push_back(Val((i*13)%n)); Val qs = Val::vec(q).withFill(Val(0)), e = p2("+", Val(2), p2("×", Val(3), qs)); for (auto& rp : repsOf(qs, 1)) { cb_m2(fnOf("⍟"), cb_inc(f), toB(qs, rp), &d); rc = cb_c1(d, toB(x), &r); judge(ex, "(3⊸+)⍟("+show(qs)+") 2", rc, r, Outcome{false, false, e}); cb_dec(d); }
  for (int lim = 0; lim < 3; lim++) { Val s = lim==0? Val(n) : lim==1? Val::vec({Val(n), Val(1)}) : Val((double)n*0.5); string fs = lim==1? "(1⊸+)" : "(1⊸+)", gs = lim==1? "(40⊸>)∘⊑" : "40⊸>"; double v = lim==2? n*0.5 : n; double k = v<40? std::ceil(40-v) : 0; Val ew = lim==1? numsV({n+k, 1+k}) : Val(v+k); cb_m2(fnOf("•while"), cb_inc(fnOf(fs)), cb_inc(fnOf(gs)), &d); rc = cb_c1(d, toB(s), &r); judge(ex, fs+" •while ("+gs+") "+show(s), rc, r, Outcome{false, false, ew}); cb_dec(d); }
  { double w = n, v = 3; cb_m2(fnOf("•while"), cb_inc(fnOf("+")), cb_inc(fnOf("(10×⊣)>⊢")), &d); if (n) { while (10*w>v) v+= w; rc = cb_c2(d, toB(Val(n)), toB(Val(3)), &r); judge(ex, strf("%d +•while((10×⊣)>⊢) 3", n), rc, r, Outcome{false, false, Val(v)}); } cb_dec(d); }
  for (auto bad : {Val(2), Val(0.5), Val::chr('a'), Val::vec({Val(1)})}) { BV g; cb_m1(fnOf("˙"), toB(bad), &g); cb_m2(fnOf("•while"), cb_inc(fnOf("⊢")), g, &d); rc = cb_c1(d, toB(Val(n)), &r); judge(ex, "⊢•while("+show(bad)+"˙) "+strf("%d", n), rc, r, Outcome{true, false, Val()}); cb_dec(d); }
}
static void undone(Ex& ex) { // counts below zero among the others, in every order and nesting: the inverse of the function, from where it began
  int n = ex.pick(ex.thorough? 6 : 5); vector<Val> q; for (int i = 0; i < n; i++) q.push_back(Val(ex.pick(n>3? 7 : 11)-(n>3? 3 : 5))); Val qs = Val::vec(q).withFill(Val(0)); int nest = ex.pick(n? 3 : 1); Val k = nest==0? qs : nest==1? Val::arr({1, (size_t)n}, q) : Val::vec({qs, Val::vec({Val(2), Val(-3)}), q[0]});
  vector<Val> base; for (int i = 0; i < 23; i++) base.push_back(Val(i*i)); Val x = Val::vec(base).withFill(Val(0)); std::function<Val(const Val&, int)> at = [&](const Val& a, int m) -> Val { if (a.isArr()) return each1([&](const Val& b) { return at(b, m); }, a); vector<Val> r; for (int i = 0; i < 23; i++) r.push_back(base[(((int)a.n*m+i)%23+23)%23]); return Val::vec(r); }; BV d, r;
  for (auto& rp : repsOf(k, 1)) for (int m : {1, 2}) { cb_m2(fnOf("⍟"), cb_inc(fnOf(m==1? "(1⊸⌽)" : "(2⊸⌽)")), toB(k, rp), &d); int rc = cb_c1(d, toB(x), &r); judge(ex, strf("(%d⊸⌽)⍟(", m)+show(k)+") "+show(x), rc, r, Outcome{false, false, at(k, m)}); cb_dec(d);
    cb_m2(fnOf("⍟"), cb_inc(fnOf("⌽")), toB(k, rp), &d); rc = cb_c2(d, toB(Val(m)), toB(x), &r); judge(ex, strf("%d ⌽⍟(", m)+show(k)+") "+show(x), rc, r, Outcome{false, false, at(k, m)}); cb_dec(d); }
}
static void choosers(Ex& ex) { // ◶ with anything on its right: a number needs a list there, anything else picks
  BV fs[4] = {val(F), val(G), val(C3), val(mk(PRIM, "⊢", {}))}; size_t two[2] = {2, 2}, one[1] = {4}, row[2] = {1, 4}, three[3] = {1, 2, 2}; int gk = ex.pick(9); auto items = [&]() { vector<BV> it; for (auto f : fs) it.push_back(cb_inc(f)); return it; };
  BV g; size_t none[1] = {0}; string gs; vector<size_t> sh; bool atom = false; vector<BV> it = items();
  switch (gk) { case 0: g = cb_mkarr(CE_B, 4, 1, one, it.data()); sh = {4}; gs = "⟨f,g,3,⊢⟩"; break; case 1: g = cb_mkarr(CE_B, 4, 2, two, it.data()); sh = {2, 2}; gs = "(2‿2⥊⟨f,g,3,⊢⟩)"; break; case 2: g = cb_mkarr(CE_B, 4, 2, row, it.data()); sh = {1, 4}; gs = "(1‿4⥊⟨f,g,3,⊢⟩)"; break; case 3: g = cb_mkarr(CE_B, 4, 3, three, it.data()); sh = {1, 2, 2}; gs = "(1‿2‿2⥊⟨f,g,3,⊢⟩)"; break;
    case 4: g = cb_mkarr(CE_B, 1, 0, none, it.data()); for (int i = 1; i < 4; i++) cb_dec(it[i]); sh = {}; gs = "(<f)"; break; case 5: g = cb_inc(fs[0]); atom = true; gs = "f"; for (auto b : it) cb_dec(b); break; case 6: g = toB(Val(7)); atom = true; gs = "7"; for (auto b : it) cb_dec(b); break; case 7: { for (auto b : it) cb_dec(b); g = toB(Val::vec({}).withFill(Val(0))); sh = {0}; gs = "⟨⟩"; break; } default: { for (auto b : it) cb_dec(b); g = toB(Val::arr({0, 3}, {}).withFill(Val(0))); sh = {0, 3}; gs = "(0‿3⥊0)"; } }
  for (double a : {0.0, 1.0, 3.0, -1.0, -4.0, 4.0, -5.0, 0.5}) for (int form = 0; form < 4; form++) { // a number, and lists of one to three
    if (form>1 && a!=(long)a) continue; vector<Val> ls; if (form) { for (int k = 1; k < form; k++) ls.push_back(Val(form==2 && a<2? (a<0? -1 : 1) : 0)); ls.push_back(Val(a)); } Val idx = form? Val::vec(ls) : Val(a); bool err = false; size_t pos = 0;
    if (atom) err = true; else if (!form) { if (sh.size()!=1 || a!=(long)a || a>=(double)sh[0] || a<-(double)sh[0]) err = true; else pos = a<0? a+sh[0] : a; } else { if (ls.size()!=sh.size()) err = true; else for (size_t k = 0; k < sh.size(); k++) { double q = ls[k].n; if (q!=(long)q || q>=(double)sh[k] || q<-(double)sh[k]) { err = true; break; } pos = pos*sh[k]+(size_t)(q<0? q+sh[k] : q); } }
    BV con, d, r; cb_m1(fnOf("˙"), toB(idx), &con); cb_m2(fnOf("◶"), con, cb_inc(g), &d); Val x = Val::str("xy"), w(9); static const P* ps[4]; static const P R = mk(PRIM, "⊢", {}); ps[0] = &F; ps[1] = &G; ps[2] = &C3; ps[3] = &R;
    for (int dy = 0; dy < 2; dy++) { Outcome o; string m; if (err) o.err = true; else o = want(*ps[pos], dy? &w : nullptr, x, &m); int rc = dy? cb_c2(d, toB(w), toB(x), &r) : cb_c1(d, toB(x), &r); judge(ex, (dy? "9 " : "")+show(idx)+"˙◶"+gs+" "+show(x), rc, r, o); } cb_dec(d); }
  cb_dec(g); ex.tick();
}
static void order(Ex& ex) { // which side is evaluated first, seen by a function that fails with its argument as the message
  static const vector<std::pair<string, string>> T = {{"((⊢!0˙)○(⊢!0˙))", "rx"}, {"(∾○(⊢!0˙))", "rx"}, {"((⊢!0˙)⊸∾)", "lw"}, {"(∾⟜(⊢!0˙))", "rx"}, {"((⊢!0˙)⊸∾⟜(⊢!0˙))", "rx"}, {"((⊣!0˙)∾(⊢!0˙))", "rx"}, {"((⊢!0˙)∾(⊣!0˙))", "lw"}, {"((⊢!0˙)¨∾○⋈(⊢!0˙))", "rx"}, {"((⊢!0˙)∘⊣)", "lw"}, {"(((⊢!0˙)∘⊣)⊸∾○(⊢!0˙))", "rx"}, {"((⊢!0˙)◶⟨⊣,⊢⟩)", "rx"}, {"(⊣⍟(⊢!0˙))", "rx"}, {"((⊢!0˙)˜)", "lw"}, {"(∾˜⟜(⊢!0˙))", "rx"}, {"((⊢!0˙)⊸∾˜)", "rx"}, {"(∾○(⊢!0˙)˜)", "lw"}}; auto& t = ex.of(T); BV r, f = fnOf(t.first); int rc = cb_c2(f, toB(Val::str("lw")), toB(Val::str("rx")), &r); ex.op(); ex.compared(); if (!rc) ex.fail("\"lw\" %s \"rx\" gives %s, expected an error", t.first.c_str(), show(fromB(r)).c_str()); if (t.second!=cb_err()) ex.fail("\"lw\" %s \"rx\" fails with %s, expected %s: the operands are not evaluated in the right order", t.first.c_str(), cb_err(), t.second.c_str()); ex.tick();
  // •while with 𝕨: every start, step and limit
  for (int w = -3; w < 4; w++) for (int x = -6; x < 7; x++) for (int lim = -7; lim < 8; lim++) { if (w<=0 && x<lim) continue; double v = x; while (v<lim) v+= w; BV d; cb_m2(fnOf("•while"), cb_inc(fnOf("+")), cb_inc(fnOf(strf("(⊢<(%s%d)˙)", lim<0? "0-" : "", std::abs(lim)))), &d); int rc2 = cb_c2(d, toB(Val(w)), toB(Val(x)), &r); judge(ex, strf("%d +•while(<%d) %d", w, lim, x), rc2, r, Outcome{false, false, Val(v)}); cb_dec(d); }
}
static void depth0(Ex& ex) { // ⚇0 with every nesting
  static const vector<Val> V = {Val(3), Val::chr('a'), numsV({1, 2}), Val::str("ab"), Val::vec({numsV({1, 2}), Val(3)}), Val::vec({Val::vec({Val(1)}), Val::vec({Val::vec({Val(2), Val(3)})})}), unitOf(Val(4)), Val::arr({1,2}, {Val(1), numsV({7})}), Val::vec({}), Val::arr({2,2}, {Val(1), Val(2), Val(3), Val(4)})};
  const Val& x = ex.of(V); for (auto& f : {F, C3, G, mk(PRIM, "+", {})}) { BV d; cb_m2(fnOf("⚇"), cb_inc(val(f)), toB(Val(0)), &d); Outcome o = outcomeOf([&]() { budget = 1000; std::function<Val(const Val&)> go = [&](const Val& a) { return a.isArr()? each1(go, a) : ev(f, nullptr, a); }; return go(x); }); all1(ex, f->src+"⚇0", d, x, o, 1);
    for (auto& w : V) { Outcome o2 = outcomeOf([&]() { budget = 1000; std::function<Val(const Val&, const Val&)> go = [&](const Val& a, const Val& b) { return a.isArr() || b.isArr()? each2(go, a, b) : ev(f, &a, b); }; return go(w, x); }); cross2(ex, f->src+"⚇0", d, w, x, o2, 1, 1); } cb_dec(d); }
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C12";
  c.init = []() {
    cb_init(); F = mk(SYM, "('f'⋈⋈)", {}, Val::chr('f')); G = mk(SYM, "('g'⋈⋈)", {}, Val::chr('g')); H = mk(SYM, "('h'⋈⋈)", {}, Val::chr('h'));
    E1 = mk(FAIL, "(\"e1\"!0˙)", {}); E2 = mk(FAIL, "(\"e2\"!0˙)", {}); C3 = num(3); CL = mk(CONST, "⟨4,'k'⟩", {}, Val::vec({Val(4), Val::chr('k')}));
    L0 = {F, G, C3, CL, E1, E2, mk(PRIM, "⊢", {}), mk(PRIM, "⊣", {}), mk(PRIM, "⋈", {})}; SYMS = {F, E2}; BL = mk(PRIM, "{⟨'b',⋈𝕩⟩}", {}); vector<P> S = {F, G, C3, CL, E1, mk(PRIM, "⋈", {}), BL}; L1 = grow(S, S, false); vector<P> S2 = {F, C3, E1, CL}; for (auto& f : S2) for (auto& g : S2) for (auto& h : S2) if (callable(h)) L1.push_back(fork(f, g, h)); L1.push_back(choose(num(1), {F, G})); L1.push_back(choose(F, {G, H})); L1.push_back(bin(REPEAT, F, num(2)));
    for (auto& t : L0) val(t); for (auto& t : L1) val(t); for (auto g : {"∘", "○", "⊸", "⟜", "⊘", "⎊", "⍟", "˜", "˙", "◶", "⚇", "•while"}) fnOf(g);
  };
  c.perRun = gcEvery(50); c.after = sharedIntact;
  c.sc = {{"depth-1-source", 1, depth1Text, 3, "every train and combinator of 9 functions and constants, compiled from source, on 4 arguments with and without 𝕨"},
          {"depth-2", 1, depthTwo, 3, "every combinator and train of the depth-1 functions and the basic ones on either side; pairs of depth-1 functions (all in the thorough tier, every 5th in the quick)"},
          {"chains", 2, chains, 3, "every nesting, four (five) deep, of the combinators with a function, a constant, a block or a failing function on the other side"},
          {"choose", 2, chooseS, 3, "19 index functions × lists of up to 4 of 8 functions"},
          {"repeat", 2, repeat, 3, "23 counts × basic and depth-1 functions"},
          {"counts", 1, counts, 3, "counts 0–70; •while"},
          {"undone", 2, undone, 3, "lists of up to 4 (5) counts from ¯5 to 5 (¯3 to 3 when four or more), as lists, matrices and nested"},
          {"choosers", 1, choosers, 3, "◶ with nine kinds of right operand × 8 numbers as indices and in lists of one to three"},
          {"order", 1, order, 3, "16 functions that fail with their argument; •while with every 𝕨, start and limit of a range"},
          {"depth-0", 1, depth0, 3, "⚇0 on 10 × 10 nestings"}};
  return mainMC(argc, argv, c);
}
