// Sizes, counts and indices that no array can have: every function on every combination of huge, infinite and small numbers.
#include "gen.hpp"
#include <climits>
using namespace bq;
static const double BIG = 9000; // results of up to this many elements have to be made, of 2⋆31 and more have to be refused (the heap is limited to 24 MB)
static vector<double> nums(bool thorough) {
  vector<double> v = {0, 1, 2, 3, 5, 64}; for (int k : {7, 8, 15, 16, 31, 32, 33, 40, 47, 48, 52, 53, 60, 61, 62, 63, 64, 65, 100, 1023}) for (int d : {-1, 0, 1}) { if (k<31) { if (d<=0) continue; v.push_back((1<<k)+d); continue; } if (!thorough && d && k!=31 && k!=32 && k!=53) continue; double x = ldexp(1, k)+d; if (k>53 && d) x = d>0? nextafter(ldexp(1, k), INFINITY) : nextafter(ldexp(1, k), 0); v.push_back(x); }
  size_t n = v.size(); for (size_t i = 1; i < n; i++) v.push_back(-v[i]); v.push_back(INFINITY); v.push_back(-INFINITY); v.push_back(NAN); v.push_back(.5); v.push_back(4294967296.5); v.push_back(1e308); return v;
}
static const vector<Val>& small() { static const vector<Val> S = {Val(5), Val::chr('c'), Val::vec({}), numsV({3}), numsV({0, 1, 1, 0, 1}), numsV({4, 5, 6, 7, 300}), numsV({.5, 2}), Val::str("abc"), Val::vec({numsV({1, 2}), Val::str("x"), Val(3)}), Val::arr({2, 3}, {1, 2, 3, 4, 5, 6}), Val::arr({0, 3}, {}), Val::arr({3, 0}, {}), unitOf(Val(7)), Val::arr({1, 2, 2}, {0, 1, 1, 0}), Val::vec({numsV({1}), numsV({1, 2})})}; return S; }
static double prod(const Val& w, bool& bad) { double p = 1; auto one = [&](const Val& e) { if (!e.isNum() || e.n!=floor(e.n) || std::isinf(e.n)) bad = true; else p*= fabs(e.n); }; if (!w.isArr()) one(w); else for (auto& e : w.it()) one(e); return p; }
// how many elements the result has, if the arguments are valid at all; -1: not known
static double sizeOf(const string& f, const Val* w, const Val& x) {
  bool bad = false; double p; auto dims = [](const Val& v) { return v.isArr()? v.a->sh : vector<size_t>(); };
  if (f=="⥊" && w) { p = prod(*w, bad); return bad? -1 : p; }
  if (f=="↑" && w) { p = prod(*w, bad); auto s = dims(x); size_t k = w->isArr()? w->ia() : 1; for (size_t i = k; i < s.size(); i++) p*= s[i]; return bad? -1 : p; }
  if (f=="↓" && w) { p = 1; return p; }
  if (f=="↕" && !w) { p = prod(x, bad); return bad? -1 : p; }
  if (f=="↕" && w) { bool b = false; prod(*w, b); if (b) return -1; auto s = dims(x); vector<Val> e = w->isArr()? w->it() : vector<Val>(); size_t k = w->isArr()? w->ia() : 1; if (k>s.size()) return 1; p = 1; for (size_t i = 0; i < s.size(); i++) { if (i<k) { double c = w->isArr()? e[i].n : w->n; p*= c*std::max(0., 1.+s[i]-c); } else p*= s[i]; } return p; }
  if (f=="/" && !w) { if (!x.isArr()) return 1; p = 0; for (auto& e : x.it()) if (e.isNum() && e.n>0) p+= e.n; return p; }
  if (f=="/" && w) { p = 0; auto s = dims(x); double c = 1; for (size_t i = 1; i < s.size(); i++) c*= s[i]; size_t n = s.size()? s[0] : 1; if (!w->isArr()) { p = w->isNum() && w->n>0? w->n*n : 0; return c==0 && p>BIG? -2 : p*c; } if (w->a->sh.size()!=1) return -2; for (auto& e : w->it()) { if (e.isArr()) return -2; if (e.isNum() && e.n>0) p+= e.n; } if (w->ia()==1) p*= n; return c==0 && p>BIG? -2 : p*c; }
  if (f=="⊔") { const Val& k = w? *w : x; p = 0; std::function<void(const Val&)> go = [&](const Val& v) { if (v.isArr()) for (auto& e : v.it()) go(e); else if (v.isNum()) p = std::max(p, v.n+1); }; go(k); return p; }
  return 1;
}
static Val form(int k, double h, double s) {
  switch (k) { case 0: return Val(h); case 1: return numsV({h}); case 2: return numsV({h, s}); case 3: return numsV({s, h}); case 4: return numsV({s, h, 2}); case 5: return Val::arr({1, 1}, {Val(h)}); case 6: return unitOf(Val(h)); case 7: return Val::vec({numsV({h}), numsV({s})}); case 8: return Val::vec({numsV({s, 0}), numsV({1, h})}); case 9: return numsV({s, 1, h, 0, 1}); case 10: return Val::arr({2, 2}, {s, 0, h, 1}); default: return Val::vec({Val(h), Val::chr('a')}); }
}
static bool unexact(const Val& v) { if (v.isArr()) { for (auto& e : v.it()) if (unexact(e)) return true; return false; } return v.isNum() && fabs(v.n)>=ldexp(1, 53) && !std::isinf(v.n); } // such numbers may be refused as sizes and indices
static void judgeBig(Ex& ex, const string& f, const Val* w, const Val& x, int rc, BV r) {
  ex.op(); ex.compared(); auto what = [&]() { return (w? show(*w)+" " : string())+f+" "+show(x); }; double z = sizeOf(f, w, x);
  if (rc) { ex.outcome(hashS(f)); if (z<0 || z>BIG || strstr(cb_err(), "Using an invalid function")) return; /* what the missing runtime would do */ Outcome o = outcomeOf([&]() { return w? p2(f, *w, x) : p1(f, x); }); if (!o.err && !o.unspec) { bool lax = unexact(x) || (w && unexact(*w)); if (o.v.isArr()) for (size_t d : o.v.a->sh) if (d>=1u<<31) lax = true; if (!lax) ex.fail("%s\n  gives an error: %s\n  expected %s", what().c_str(), cb_err(), show(o.v).c_str()); } return; }
  string why; if (cb_kind(r)==CK_ARR) { double p = 1; for (int i = 0; i < cb_rank(r); i++) p*= cb_shape(r)[i]; if (p!=(double)cb_ia(r)) ex.fail("%s\n  gives an array of %zu elements whose shape asks for %g", what().c_str(), cb_ia(r), p); }
  if (cb_kind(r)==CK_ARR && cb_ia(r)==0) { bool far = false; for (int i = 0; i < cb_rank(r); i++) if (cb_shape(r)[i]>=1ull<<48) far = true; if (far) { if ((f=="⥊" || f=="↑") && w && w->isArr() && w->ia()==(size_t)cb_rank(r)) { for (int i = 0; i < cb_rank(r); i++) if (!w->it()[i].isNum() || (double)cb_shape(r)[i]!=(f=="↑"? fabs(w->it()[i].n) : w->it()[i].n)) ex.fail("%s\n  gives %s", what().c_str(), show(fromB(r)).c_str()); } else if (f!="⥊" && f!="↑") ex.fail("%s\n  gives %s", what().c_str(), show(fromB(r)).c_str()); cb_dec(r); return; } }
  if (z>=ldexp(1, 31)-2) ex.fail("%s\n  gives a value, though its result would have %g elements", what().c_str(), z);
  if (z==-1) { Outcome o = outcomeOf([&]() { return w? p2(f, *w, x) : p1(f, x); }); if (o.err) ex.fail("%s\n  gives %s\n  expected an error", what().c_str(), show(fromB(r)).c_str()); }
  else if (z>=0 && z<=BIG) { Outcome o = outcomeOf([&]() { return w? p2(f, *w, x) : p1(f, x); }); if (!wellFormed(r, &why)) ex.fail("%s\n  gives a malformed value: %s", what().c_str(), why.c_str()); if (o.err && !unexact(x) && !(w && unexact(*w))) ex.fail("%s\n  gives %s\n  expected an error", what().c_str(), show(fromB(r)).c_str()); if (!o.err && !o.unspec && !same(r, o.v)) ex.fail("%s\n  gives    %s\n  expected %s", what().c_str(), show(fromB(r)).c_str(), show(o.v).c_str()); }
  cb_dec(r); ex.tick();
}
static const char* const FN2[] = {"⥊", "↑", "↓", "↕", "⌽", "/", "⊏", "⊑", "⊔", "⍉", "»", "«", "∾", "≍", "⊐", "⊒", "∊", "⍷"};
static const char* const FN1[] = {"↕", "/", "⊔", "⥊", "⌽", "⍉", "⊏", "⊑", "↑", "↓", "∾", "≍", "»", "«", "⍋", "⍒", "∧", "∨", ">", "<", "≢", "≡", "="};
struct Limit { uint64_t m; Limit() { m = cb_heapmax(); cb_set_heapmax(cb_heap_used()+(24u<<20)>cb_heap_alloc()? cb_heap_used()+(24u<<20) : cb_heap_alloc()); } ~Limit() { cb_set_heapmax(m); } };
static void tidy() { static uint64_t next = 1u<<27; if (cb_heap_used()>next) { cb_gc(); next = cb_heap_used()+(1u<<27); } } // (what an error leaves behind stays)
static int lim2(const char* f, BV w, BV x, BV* r) { tidy(); Limit l; return cb_c2(fnOf(f), w, x, r); }
static int lim1(const char* f, BV x, BV* r) { tidy(); Limit l; return cb_c1(fnOf(f), x, r); }
static void dyadic(Ex& ex) {
  static vector<double> N[2] = {nums(false), nums(true)}; auto& ns = N[ex.thorough]; const char* f = FN2[ex.pick(sizeof(FN2)/sizeof(char*))]; double h = ns[ex.pick(ns.size())]; int fm = ex.pick(12); static const double SM[] = {0, 1, 2, -1, 4294967296., 9223372036854775808.};
  for (double s : SM) { if ((fm<2 || fm==5 || fm==6 || fm>10) && s!=SM[0]) break; Val v = form(fm, h, s); for (auto& x : small()) { bool slow = !strcmp(f, "/") && x.isArr() && x.a->sh.size()>1 && x.a->sh[0] && !x.ia(); BV r; if (slow) continue; /* copies nothing, as often as it is told to */ int rc = lim2(f, toB(v), toB(x), &r); judgeBig(ex, f, &v, x, rc, r); rc = lim2(f, toB(x), toB(v), &r); judgeBig(ex, f, &x, v, rc, r); } }
  ex.state(hashS(f)*31+fm);
}
static void monadic(Ex& ex) {
  static vector<double> N[2] = {nums(false), nums(true)}; auto& ns = N[ex.thorough]; const char* f = FN1[ex.pick(sizeof(FN1)/sizeof(char*))]; double h = ns[ex.pick(ns.size())]; int fm = ex.pick(12);
  for (double s : ns) { if ((fm<2 || fm==5 || fm==6 || fm>10) && s!=ns[0]) break; Val v = form(fm, h, s); BV r; int rc = lim1(f, toB(v), &r); judgeBig(ex, f, nullptr, v, rc, r); }
  ex.state(hashS(f)*37+fm);
}
// large cells, and empty arrays of huge shapes: the result's size and shape belong together, or it is an error
static const vector<string>& big() { static vector<string> B; if (B.size()) return B; for (auto c : {"⟨0,1⟩", "⟨1÷2,3⟩", "⟨\"a\",1⟩"}) for (auto sh : {"⟨2,2⋆16⟩", "⟨1,2⋆17⟩"}) B.push_back(mc::strf("%s⥊%s", sh, c)); return B; }
static const vector<string>& none() { static vector<string> B; if (B.size()) return B; for (auto c : {"⟨⟩", "\"\"", "⟨1÷2⟩", "⟨\"a\",1⟩"}) for (auto sh : {"⟨0,2⋆32⟩", "⟨0,2⋆40,2⋆40⟩", "⟨2⋆32,0⟩", "⟨2⋆40,0,2⋆40⟩", "⟨1,0,2⋆60⟩", "⟨2⋆45,2⋆45,0⟩", "⟨2⋆31,2⋆31,2,0⟩"}) B.push_back(mc::strf("%s⥊%s", sh, c)); return B; }
static void shapely(Ex& ex, const string& what, int rc, BV r) { ex.op(); ex.compared(); ex.tick(); if (rc) { ex.outcome(hashS(cb_err())); return; } if (cb_kind(r)==CK_ARR) { unsigned __int128 p = 1; bool zero = false; for (int i = 0; i < cb_rank(r); i++) { size_t d = cb_shape(r)[i]; if (!d) zero = true; p*= d; if (p>>80) p = (unsigned __int128)1<<80; } if (zero) p = 0; if (p!=cb_ia(r)) { string sh; for (int i = 0; i < cb_rank(r); i++) sh+= mc::strf(" %zu", cb_shape(r)[i]); ex.fail("%s\n  gives an array of %zu elements of shape%s", what.c_str(), cb_ia(r), sh.c_str()); } if (cb_ia(r)<100 && cb_elt(r)==CE_B) for (size_t i = 0; i < cb_ia(r); i++) cb_kind(cb_item(r, i)); } cb_dec(r); }
static BV exprOf(const string& s) { static std::map<string, BV> m; auto i = m.find(s); if (i!=m.end()) return i->second; BV r; if (cb_eval(s.c_str(), &r)) r = 0; return m[s] = r; }
static void wide(Ex& ex) {
  static vector<double> N[2] = {nums(false), nums(true)}; auto& ns = N[ex.thorough]; const string& xs = ex.of(big()); BV x = exprOf(xs); if (!x) ex.fail("%s: %s", xs.c_str(), cb_err()); const char* f = FN2[ex.pick(sizeof(FN2)/sizeof(char*))]; int fm = ex.pick(12); static const double SM[] = {0, 1, 2, 65536.};
  for (double h : ns) for (double s : SM) { if (!ex.thorough && h!=0 && h!=1 && h!=2 && h!=65536 && h!=4294967296. && h!=70368744177664. && h!=281474976710656. && h!=9223372036854775808.) continue; if ((fm<2 || fm==5 || fm==6 || fm>10) && s!=SM[0]) break; if (!ex.thorough && h<0 && h>-2000000000.) continue; Val v = form(fm, h, s); BV r; int rc = lim2(f, toB(v), cb_inc(x), &r); shapely(ex, show(v)+" "+f+" "+xs, rc, r); }
  ex.state(hashS(f)*31+fm+hashS(xs));
}
static bool endless(const string& f, BV x) { return cb_shape(x)[0]>=1ull<<31 && (f=="⌽" || f=="/"); } // (go over 2⋆32 cells of nothing)
static bool calls(const string& f, BV x) { if (cb_kind(x)!=CK_ARR) return false; int r = cb_rank(x); if (!r) return false; bool any = f.find("¨")!=string::npos; for (int k = 0; k < r; k++) { bool q = (k==1 && (f.find("˘")!=string::npos || f.find("(0-1)")!=string::npos)) || (k==r-1 && f.find("⎉1")!=string::npos) || (k==r-2 && f.find("⎉2")!=string::npos) || (any && k==1); if (!q) continue; unsigned __int128 p = 1; for (int i = 0; i < k; i++) { size_t d = cb_shape(x)[i]; p = p>>100? p : p*d; if (!d) { p = 0; break; } } if (p>(1u<<20) && !(p>>64)) return true; } return false; } // (a call for each of the cells, of nothing)
static const vector<const char*>& deep1() { static const vector<const char*> F = {"<˘", "<⎉1", "<⎉2", "<⎉(0-1)", "<⎉0", "≢˘", "≢⎉1", "⊢˘", "⊢⎉1", "⊑˘", "⊏˘", "⊏⎉1", "⥊˘", "⥊⎉2", "⌽⎉1", "⍉", "⍉⁼", "∾⎉1", "+´˘", "+´⎉1", "+˝", "∾˝", "+`", "+˝˘", "+`˘", "⊔˘", "⍋˘", "∧˘", "=¨", "<¨", "⊢¨", "-", "⊢⚇1", "⊐", "⊒", "∊", "⍷", "≍˘", "⋈⌜", "⟨1⟩⊸⊏˘", "3⊸↑˘", "1⊸↓⎉1", "5⊸∾˘", "⟨0,0⟩⊸⍉", "⟨1⟩⊸⍉", "2⊸⌽˘", "1⊸»˘"}; return F; }
static const vector<const char*>& deep2() { static const vector<const char*> F = {"+", "≡", "≢", "=⌜", "∾⎉1", "∾˘", "+⎉1", "≍⎉1", "⊐⎉1", "∊˘", "⋈¨", "⋈⌜", "⊢⎉1‿∞", "⊣˘", "⊏⎉1", "+⎉0‿1", "↑˘", "⥊˘"}; return F; }
static void hollow(Ex& ex) {
  const string& xs = ex.of(none()); BV x = exprOf(xs); if (!x) return; /* (such an array may be refused) */ int k = ex.pick(5); BV r; if (k==3) { const char* f = ex.of(deep1()); if (exprOf(f) && !calls(f, x)) { int rc = lim1(f, cb_inc(x), &r); shapely(ex, string(f)+" "+xs, rc, r); } return; } if (k==4) { const char* f = ex.of(deep2()); if (!exprOf(f) || calls(f, x)) return; for (auto& w : none()) { BV y = exprOf(w); if (y && !calls(f, y)) { int rc = lim2(f, cb_inc(y), cb_inc(x), &r); shapely(ex, w+" "+f+" "+xs, rc, r); }; } for (auto& w : small()) { { int rc = lim2(f, toB(w), cb_inc(x), &r); shapely(ex, show(w)+" "+f+" "+xs, rc, r); }; { int rc = lim2(f, cb_inc(x), toB(w), &r); shapely(ex, xs+" "+f+" "+show(w), rc, r); }; } return; }
  if (k==0) { for (auto f : FN1) { if (endless(f, x)) continue; int rc = lim1(f, cb_inc(x), &r); shapely(ex, string(f)+" "+xs, rc, r); } { int rc = cb_c1(fnOf("≢"), cb_inc(x), &r); ex.compared(); if (rc || cb_ia(r)!=(size_t)cb_rank(x)) ex.fail("≢%s fails", xs.c_str()); for (size_t i = 0; i < cb_ia(r); i++) { BV e; if (cb_c2(fnOf("⊑"), cb_mknum(i), cb_inc(r), &e)) ex.fail("⊑≢%s fails", xs.c_str()); if (cb_num(e)!=(double)cb_shape(x)[i]) ex.fail("≢%s\n  gives %s", xs.c_str(), show(fromB(r)).c_str()); } cb_dec(r); } }
  else if (k==1) { const char* f = FN2[ex.pick(sizeof(FN2)/sizeof(char*))]; if (endless(f, x)) return; for (auto& w : small()) { int rc = lim2(f, toB(w), cb_inc(x), &r); shapely(ex, show(w)+" "+f+" "+xs, rc, r); rc = lim2(f, cb_inc(x), toB(w), &r); shapely(ex, xs+" "+f+" "+show(w), rc, r); } }
  else { const char* f = FN2[ex.pick(sizeof(FN2)/sizeof(char*))]; for (auto& w : none()) { BV y = exprOf(w); if (!y || endless(f, x) || endless(f, y)) continue; int rc = lim2(f, cb_inc(y), cb_inc(x), &r); shapely(ex, w+" "+f+" "+xs, rc, r); } }
  ex.state(hashS(xs)*3+k);
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C34"; c.useStates = true; c.assumptions = {"the heap is limited to 24 MB more than is in use, so that what is far too large is refused at once"};
  c.init = []() { cb_init(); for (auto f : FN1) fnOf(f); for (auto f : FN2) fnOf(f); cb_gc(); };
  c.perRun = gcEvery(50);
  c.sc = {{"empties", 2, hollow, 3, "28 empty arrays of huge shapes, 23 and 18 functions, with each other and with 15 values"},
          {"dyadic", 3, dyadic, 3, "18 functions × numbers × 12 forms × 6 partners × 15 values on the other side"},
          {"monadic", 3, monadic, 3, "23 functions × numbers × 12 forms × partners"},
          {"cells", 3, wide, 3, "6 arrays of 2⋆17 elements × 18 functions × 12 forms"}};
  return mainMC(argc, argv, c);
}
