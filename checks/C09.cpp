// Fold, insert, scan, table and each: every operand, list, shape and representation against their definitions.
#include "gen.hpp"
using namespace bq;
struct Op { string src, name; F2 f; bool arith; };
static vector<Op> OPS; static int NAR; // the arithmetic ones come first
static Val app(const Op& o, const Val& a, const Val& b) { return o.f(a, b); }
enum { M_FOLD, M_INS, M_SCAN, M_TBL, M_EACH };
static const char* GL[] = {"´", "˝", "`", "⌜", "¨"};
static BV der(int m, const Op& o) { static std::map<std::pair<int,string>, BV> c; auto& r = c[{m, o.src}]; if (!r) r = derive1(GL[m], fnOf(o.src)); return r; }
static Outcome ref(int m, const Op& o, const Val* w, const Val& x) {
  return outcomeOf([&]() { switch (m) {
    case M_FOLD: return w? fold2(o.f, *w, x) : fold1(o.f, o.name, x);
    case M_INS: return w? insert2(o.f, *w, x) : insert1(o.f, o.name, x);
    case M_SCAN: return w? scan2(o.f, *w, x) : scan1(o.f, x);
    case M_TBL: return table2(o.f, *w, x);
    default: return each2(o.f, *w, x); } });
}
static void check(Ex& ex, int m, const Op& o, const Val* w, const Val& x, int level) {
  string nm = o.src+GL[m]; Outcome e = ref(m, o, w, x); if (w) cross2(ex, nm, der(m, o), *w, x, e, w->isArr()? level : 0, level); else all1(ex, nm, der(m, o), x, e, level);
}
static const vector<vector<Val>> ALPH = {
  {0, 1}, {0, 1, 2, -1}, {127, -128, 1}, {32767, -32768, 2}, {2147483647, -2147483648.0, 1}, {0.5, 2, -3}, {Val::chr('a'), 1, Val::chr('b')}, {Val::chr(300), Val::chr('c')}, {9007199254740991.0, 1, -1}, {Val::vec({1, 2}), 3, Val::vec({0, 5})}, {-0.0, 0, (double)INFINITY}};
static const vector<Val> WS = {0, 1, 2, -1, 127, 128, -128, -2147483648.0, 2147483647, 2147483648.0, 9007199254740992.0, -9007199254740992.0, 0.5, (double)INFINITY, Val::chr('a'), Val::vec({1, 2}), Val::vec({}), unitOf(Val(3))};
static void lists(Ex& ex) { // every short list, with and without every starting value
  const Op& o = ex.of(OPS); const auto& A = ex.of(ALPH); int cap = A.size()==2? (ex.thorough? 8 : 7) : A.size()==3? (ex.thorough? 6 : 5) : ex.thorough? 5 : 4; int n = ex.pick(cap+1); vector<Val> v; for (int i = 0; i < n; i++) v.push_back(A[ex.pick(A.size())]); Val x = Val::vec(v); int lv = n<=2? 2 : n<=4? 1 : 0;
  for (int m : {M_FOLD, M_SCAN, M_INS}) check(ex, m, o, nullptr, x, lv);
  if (n>4 && !ex.thorough) { for (int m : {M_FOLD, M_SCAN, M_INS}) for (int k : {0, 1, 4, 12}) check(ex, m, o, &WS[k], x, 0); return; }
  for (int m : {M_FOLD, M_SCAN, M_INS}) for (auto& w : WS) check(ex, m, o, &w, x, n==1? 1 : 0);
}
static vector<size_t> LENS(bool th) { vector<size_t> r = {3, 8, 31, 33, 63, 64, 65, 66, 127, 128, 129, 200}; if (th) for (size_t n : {7, 9, 32, 62, 191, 192, 193, 256, 257, 511, 513, 1000}) r.push_back(n); return r; }
static void bits(Ex& ex) { // Boolean lists: a lone 1 or 0 at every position, and periodic patterns
  const Op& o = OPS[ex.pick(NAR)]; size_t n = ex.of(LENS(ex.thorough)); int pat = ex.pick(9); size_t at = 0; if (pat<4) { size_t np = n<=66 || ex.thorough? n : 40; at = ex.pick(np); if (np<n) at = at<10? at : at<30? 54+at-10 : n-1-(at-30); if (at>=n) return; }
  vector<Val> v; uint64_t s = 77; for (size_t i = 0; i < n; i++) v.push_back(Val((int)(pat==0? i==at : pat==1? i!=at : pat==2? i>=at : pat==3? i<at : pat==4? i&1 : pat==5? !(i&1) : pat==6? lcg(s)&1 : pat==7? i%64==0 : lcg(s)%5>0)));
  Val x = Val::vec(v); for (int m : {M_FOLD, M_SCAN}) { Outcome e = ref(m, o, nullptr, x); string nm = o.src+GL[m]; BV f = der(m, o); for (auto& r : vector<Rep>{{.elt=CE_BIT}, {.elt=CE_BIT, .slice=1}, {.elt=CE_BIT, .slice=64, .shared=true}, {.elt=CE_I8}, {.elt=CE_I16, .slice=1}, {.elt=CE_I32}, {.elt=CE_F64}, {.elt=CE_B}}) { if (r.elt>CE_BIT && at%9) continue; call1(ex, nm, f, x, r, e); ex.tick(); }
    if (pat<4 && at%5 && at!=n-1) continue; for (int k : {0, 1, 2, 3, 7, 8, 9, 12, 14}) { Outcome e2 = ref(m, o, &WS[k], x); call2(ex, nm, f, WS[k], {}, x, {.elt=CE_BIT}, e2); if (k<3) call2(ex, nm, f, WS[k], {}, x, {.elt=CE_I8}, e2); ex.tick(); } }
}
static void typed(Ex& ex) { // every element family and length, with an extreme value somewhere
  const Op& o = ex.of(OPS); int fam = ex.pick(FAM_N); size_t n = ex.of(LENS(ex.thorough)); int range = ex.of(vector<int>{2, 10, 200}); if (range==200 && fam==FAM_BIT) return; if (!o.arith && (n>66 && n!=129)) return; if (o.src=="∾" && n>66) return;
  Val x = famArr(fam, {n}, range, n+range);
  for (int m : {M_FOLD, M_SCAN}) { check(ex, m, o, nullptr, x, n<66 && range==200? 1 : 0); for (int k : {1, 5, 7, 12}) check(ex, m, o, &WS[k], x, 0); Val f = famItem(fam, 3, range); check(ex, m, o, &f, x, 0); }
}
static void overflow(Ex& ex) { // the result leaves the type at every position, in every direction
  int g = ex.pick(7); static const char* G[] = {"+", "×", "-", "⌈", "⌊", "∨", "≠"}; const Op* o = nullptr; for (auto& p : OPS) if (p.src==G[g]) o = &p; size_t n = ex.of(vector<size_t>{3, 7, 32, 65, 130}); size_t at = ex.pick(n); int e = ex.of(vector<int>{CE_I8, CE_I16, CE_I32, CE_F64}); int sign = ex.pick(2), base = ex.pick(3); double lim = e==CE_I8? (sign? -128 : 127) : e==CE_I16? (sign? -32768 : 32767) : e==CE_I32? (sign? -2147483648.0 : 2147483647.0) : (sign? -9007199254740992.0 : 9007199254740991.0);
  vector<Val> v; for (size_t i = 0; i < n; i++) v.push_back(Val(base==0? 0.0 : base==1? (double)(sign? -1 : 1) : (double)(i%3)-1)); v[at] = Val(lim); if (n>3) v[(at+n/2)%n] = Val(g==1? 2.0 : lim); Val x = Val::vec(v); static const vector<Val> W = {0, 1, -1, 2, 2147483647, -2147483648.0, 2147483648.0, 9007199254740991.0, -9007199254740991.0, 1.5, 1e300};
  for (int m : {M_FOLD, M_SCAN}) { string nm = o->src+GL[m]; BV f = der(m, *o); call1(ex, nm, f, x, {.elt=e}, ref(m, *o, nullptr, x)); for (auto& w : W) call2(ex, nm, f, w, {}, x, {.elt=e}, ref(m, *o, &w, x)); ex.tick(); }
}
static void cellsOf(Ex& ex) { // insert and scan over arrays of every shape
  const Op& o = ex.of(OPS); static const vector<Sh> S = {{1,3}, {2,3}, {3,1}, {3,2}, {4,1,1}, {2,7}, {3,8}, {5,5}, {3,64}, {2,65}, {9,7}, {64,2}, {17,4}, {3,2,2}, {2,3,4}, {4,2,3,2}, {2,0}, {3,0}, {0,2}, {0,0}, {0,2,3}, {3,0,2}, {1,0}, {65,1}, {7,5}, {20,6}, {3,33}}; const Sh& s = ex.of(S); int fam = ex.pick(FAM_N); size_t cs = prod(s, 1); if (!o.arith && prod(s)>80) return; Val x = famArr(fam, s, fam==FAM_BIT? 2 : 9, s[0]);
  check(ex, M_INS, o, nullptr, x, prod(s)<30? 1 : 0); check(ex, M_SCAN, o, nullptr, x, prod(s)<30? 1 : 0);
  Sh c(s.begin()+1, s.end()); vector<Val> ws = {Val(2), Val(0.5), Val::chr('q'), famArr(fam, c, 9, 3), famArr(FAM_I8, c, 9, 4), famArr(FAM_F64, c, 9, 4), famArr(FAM_BIT, c, 2, 4), unitOf(Val(7)), Val::vec({3}), famArr(FAM_I8, concat(c, {2}), 9, 5), famArr(FAM_I16, {cs+1}, 9, 1), Val::arr({1,1,1}, {4})};
  for (auto& w : ws) { check(ex, M_INS, o, &w, x, 0); check(ex, M_SCAN, o, &w, x, 0); }
}
static void cellOverflow(Ex& ex) { // many rows: sums and scans that leave the type
  int g = ex.pick(5); static const char* G[] = {"+", "⌈", "⌊", "×", "-"}; const Op* o = nullptr; for (auto& p : OPS) if (p.src==G[g]) o = &p; size_t n = ex.of(vector<size_t>{2, 3, 33, 129, 300}), c = ex.of(vector<size_t>{2, 3, 5, 7, 8, 13, 17, 33}); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64}); int kind = ex.pick(3); Val x = famArr(fam, {n, c}, 256, n*c); if (kind) { double hi = fam==FAM_BIT? 1 : fam==FAM_I8? 127 : fam==FAM_I16? 32767 : 2147483647; vector<Val> v(n*c, Val(kind==1? hi : fam==FAM_BIT? 0.0 : -hi-1)); x = Val::arr({n, c}, v); }
  int e = fam==FAM_BIT? CE_BIT : fam==FAM_I8? CE_I8 : fam==FAM_I16? CE_I16 : fam==FAM_I32? CE_I32 : CE_F64; for (int m : {M_INS, M_SCAN}) { call1(ex, o->src+GL[m], der(m, *o), x, {.elt=e}, ref(m, *o, nullptr, x)); Val w = famArr(fam, {c}, 256, 5); call2(ex, o->src+GL[m], der(m, *o), w, {}, x, {.elt=e}, ref(m, *o, &w, x)); ex.tick(); }
}
static vector<int> FEW(bool th) { vector<int> r; for (int i = 0; i < (int)OPS.size(); i++) if (th || i>=NAR || i==0 || i==1 || i==4 || i==9 || i==3) r.push_back(i); return r; }
static void tables(Ex& ex) { // table and each of every pair of shapes and families
  const Op& o = OPS[ex.of(FEW(ex.thorough))]; static const vector<Sh> S = {{}, {0}, {1}, {2}, {3}, {4}, {2,3}, {3,2}, {0,2}, {2,0}, {2,3,2}, {1,1}, {7}, {20}}; const Sh& a = ex.of(S); const Sh& b = ex.of(S); int fa = ex.pick(FAM_N+1), fb = ex.pick(FAM_N+1); if (!o.arith && (fa%2) && (fb%3)) return; if (!ex.thorough && prod(a)*prod(b)>8 && fa!=fb && (fa+fb)%4) return; if ((fa==FAM_N && a.size()) || (fb==FAM_N && b.size())) return; if (prod(a)*prod(b)>150 && fa!=fb) return;
  Val w = fa==FAM_N? Val(3) : famArr(fa, a, 9, 2), x = fb==FAM_N? Val::chr('z') : famArr(fb, b, 9, 3); int lv = prod(a)*prod(b)<=12 && (ex.thorough || fa%4==fb%4)? 1 : 0; if (fa==FAM_N && fb==FAM_N) lv = 0;
  check(ex, M_TBL, o, &w, x, lv); check(ex, M_EACH, o, &w, x, lv);
}
static void tableLengths(Ex& ex) { // table: lengths around where arithmetic is done all at once, row by row, or item by item
  const Op& o = OPS[ex.of(vector<int>{0, 1, 3, 4, 9, NAR, NAR+1})]; size_t a = ex.of(vector<size_t>{1,2,3,4,5,9,17,65,130}), b = ex.of(vector<size_t>{1,2,3,4,5,8,39,40,41,64,79,80,159,160,319,320,321,2559,2560}); int fa = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I32, FAM_F64, FAM_C8, FAM_NEST}), fb = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_F64, FAM_C32, FAM_NEST}); if (a*b>4000 && fa!=fb && fa!=FAM_BIT) return; if (a*b>12000) return;
  Val w = famArr(fa, {a}, 9, 2), x = famArr(fb, {b}, 9, 3); check(ex, M_TBL, o, &w, x, 0); if (a%2 && b%2==0) { vector<Val> wv = w.it(), xv = x.it(); for (size_t i = 0; i < a; i++) wv.push_back(wv[i]); Val w2 = Val::arr({2, a}, wv), x2 = Val::arr({b/2, 1, 2}, xv); check(ex, M_TBL, o, &w2, x2, 0); }
}
struct Op1 { string src; F1 f; };
static vector<Op1> MON;
static void each1s(Ex& ex) { // one argument
  const Op1& o = ex.of(MON); int fam = ex.pick(FAM_N+1); static const vector<Sh> S = {{}, {0}, {1}, {2}, {5}, {65}, {2,3}, {0,3}, {3,0}, {2,2,2}}; const Sh& s = ex.of(S); if (fam==FAM_N && s.size()) return; Val x = fam==FAM_N? Val(5) : famArr(fam, s, 9, 2); Outcome e = outcomeOf([&]() { return each1(o.f, x); });
  for (int m : {M_EACH, M_TBL}) { static std::map<std::pair<int,string>, BV> c; auto& d = c[{m, o.src}]; if (!d) d = derive1(GL[m], fnOf(o.src)); all1(ex, o.src+GL[m], d, x, e, 2); }
}
static void derived(Ex& ex) { // folds of derived functions over nothing: the identity of the function inside, in its own shape
  static const vector<string> F = {"+", "-", "×", "÷", "⋆", "⌊", "⌈", "∧", "∨", "=", "≠", ">", "≥", "<", "≤", "⊢", "∾"}; const string& f = ex.of(F); Val id; bool has = true; static const std::map<string, double> I = {{"+", 0}, {"-", 0}, {"×", 1}, {"÷", 1}, {"⋆", 1}, {"⌊", INFINITY}, {"⌈", -INFINITY}, {"∧", 1}, {"∨", 0}, {"=", 1}, {"≠", 0}, {">", 0}, {"≥", 1}}; auto i = I.find(f); if (i!=I.end()) id = Val(i->second); else has = false;
  struct D { const char* post; bool unit; }; static const vector<D> DS = {{"⌜", true}, {"", false}}; const D& d = ex.of(DS); if (d.unit && f=="|") return; if (!has) return; // (those without a number for it are left open)
  BV q = fnOf(f), g, r; if (*d.post) cb_m1(fnOf(d.post), cb_inc(q), &g); else g = cb_inc(q); BV fold; cb_m1(fnOf("´"), g, &fold); for (auto& x : {Val::vec({}), Val::vec({}).withFill(Val(0)), Val::str("")}) { Outcome e; e.v = d.unit? unitOf(id) : id; int rc = cb_c1(fold, toB(x), &r); judge(ex, f+d.post+"´⟨⟩", rc, r, e); for (auto& w : {Val(7), numsV({1, 2})}) { Outcome e2; e2.v = w; rc = cb_c2(fold, toB(w), toB(x), &r); judge(ex, show(w)+" "+f+d.post+"´⟨⟩", rc, r, e2); } } cb_dec(fold); ex.tick();
}
static void sums(Ex& ex) { // •math.Sum: exact on integers
  int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_I32}); size_t n = ex.of(vector<size_t>{0, 1, 2, 3, 63, 64, 65, 1000, 65535, 65536, 65537, 140000}); int kind = ex.pick(3); vector<Val> v; double hi = fam==FAM_BIT? 1 : fam==FAM_I8? 127 : fam==FAM_I16? 32767 : 2147483647, lo = fam==FAM_BIT? 0 : -hi-1; uint64_t s = n; double t = 0; for (size_t i = 0; i < n; i++) { double d = kind==0? hi : kind==1? lo : famItem(fam, lcg(s), 65536).n; v.push_back(Val(d)); t+= d; } Val x = Val::vec(v); Outcome e; e.v = Val(t);
  for (auto& r : repsOf(x, n<2000? 1 : 0)) { call1(ex, "•math.Sum", fnOf("•math.Sum"), x, r, e); ex.tick(); } const Op* o = nullptr; for (auto& p : OPS) if (p.src=="+") o = &p; for (auto& r : repsOf(x, 0)) { call1(ex, "+´", der(M_FOLD, *o), x, r, e); for (double w : {1.0, -5.0, 0.25, 9007199254740000.0}) { Val W(w); call2(ex, "+´", der(M_FOLD, *o), W, {}, x, r, ref(M_FOLD, *o, &W, x)); } ex.tick(); }
  if (n && n<100) { for (auto& b : vector<Val>{Val::chr('a'), Val::vec({1})}) { vector<Val> q = v; q[n/2] = b; call1(ex, "•math.Sum", fnOf("•math.Sum"), Val::vec(q), {}, Outcome{.err=true}); } for (auto& y : vector<Val>{Val(1), unitOf(Val(1)), Val::arr({n,1}, v)}) call1(ex, "•math.Sum", fnOf("•math.Sum"), y, {}, Outcome{.err=true}); }
}
static void counting(Ex& ex) { // +` of bits: the number of ones around the limits of result types and of the sparse method
  size_t n = ex.of(vector<size_t>{200, 1000, 16000, 16256, 16385, 17000, 20000, 40000, 70000}), m = ex.of(vector<size_t>{0, 1, 2, 3, 125, 126, 127, 128, 129, 156, 157, 312, 313, 546, 547, 32766, 32767, 32768, 32769}); int kind = ex.pick(5); if (m>n) return; vector<uint8_t> b(n); for (size_t i = 0; i < m; i++) { size_t at = kind==0? i : kind==1? n-1-i : kind==2? i*n/m : kind==3? i*n/m+n/m-1 : (i+n-m/2)%n; b[at] = 1; } vector<Val> v, t; double s = 0; for (auto e : b) { v.push_back(Val((double)e)); s+= e; t.push_back(Val(s)); } Val x = Val::vec(v); Outcome e; e.v = Val::vec(t); const Op* o = nullptr; for (auto& p : OPS) if (p.src=="+") o = &p; for (auto& r : repsOf(x, 0)) { call1(ex, "+`", der(M_SCAN, *o), x, r, e); ex.tick(); }
  Outcome g; for (auto& q : t) q = Val(q.n+3); g.v = Val::vec(t); call2(ex, "+`", der(M_SCAN, *o), Val(3), {}, x, {}, g); ex.tick(); }
static void huge(Ex& ex) { // sums past 2⋆53 in lists longer than a block
  size_t n = ex.of(vector<size_t>{(1<<20)-1, (1<<20)+1, 4300000}); int kind = ex.pick(4); const Op* o = nullptr; for (auto& p : OPS) if (p.src=="+") o = &p; vector<int32_t> d(n); uint64_t s = n; for (size_t i = 0; i < n; i++) d[i] = kind==0? 2147483647 : kind==1? (-2147483647-1) : kind==2? 2147483647-(int)(lcg(s)%1000) : i%2? 2147483647 : -5; for (double w : {0.0, 9007199254740000.0, -1.0, 1.5}) { double t = w; for (size_t i = n; i--;) t = (double)d[i]+t; size_t sh[1] = {n}; BV x = cb_mkarr(CE_I32, n, 1, sh, d.data()), r; int rc = w==0? cb_c1(der(M_FOLD, *o), x, &r) : cb_c2(der(M_FOLD, *o), cb_mknum(w), x, &r); Outcome e; e.v = Val(t); judge(ex, strf("%g +´ of %zu numbers of 4 bytes, kind %d", w, n, kind), rc, r, e); ex.tick(); }
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C09";
  c.assumptions = {"folding an empty list with an operand that has no listed identity is an error; insert over no cells of other operands or of rank 3 and more is left open", "floating-point folds are compared bit by bit with right-to-left evaluation, scans with left-to-right", "each and table over no elements: only the shape of the result is compared"};
  c.init = []() {
    cb_init();
    for (auto g : {"+", "-", "×", "÷", "⌊", "⌈", "|", "∧", "∨", "=", "≠", "<", ">", "≤", "≥", "¬", "⋆"}) { string s = g; OPS.push_back({s, s, [s](const Val& a, const Val& b) { return perv2([&](const Val& p, const Val& q) { return s2(s, p, q); }, a, b); }, true}); }
    NAR = OPS.size();
    for (auto g : {"⊣", "⊢", "⋈", "≡", "∾", "≍"}) { string s = g; OPS.push_back({s, s, [s](const Val& a, const Val& b) { return p2(s, a, b); }, false}); }
    OPS.push_back({"(-˜)", "", [](const Val& a, const Val& b) { return p2("-", b, a); }, false});
    OPS.push_back({"(⊣+2×⊢)", "", [](const Val& a, const Val& b) { return p2("+", a, p2("×", Val(2), b)); }, false});
    OPS.push_back({"(7˙)", "", [](const Val& a, const Val& b) { return Val(7); }, false});
    OPS.push_back({"(2⊸⊑⋈)", "", [](const Val& a, const Val& b) -> Val { err(); }, false});
    for (auto g : {"-", "¬", "⊢", "⊣", "<", "≡", "≢", "≠", "⌽", "⊑", "⋈", "↕", "=", "!"}) { string s = g; MON.push_back({s, [s](const Val& a) { return p1(s, a); }}); }
    MON.push_back({"(3˙)", [](const Val&) { return Val(3); }}); MON.push_back({"(⋈˜)", [](const Val& a) { return p2("⋈", a, a); }}); MON.push_back({"5", [](const Val&) { return Val(5); }});
    fnOf("•math.Sum"); for (auto& o : OPS) for (int m = 0; m < 5; m++) der(m, o);
  };
  c.perRun = gcEvery(300); c.after = sharedIntact;
  c.sc = {{"lists", 3, lists, 3, "every list of up to 7 of 2, 5 of 3, 4 of 4 values from 11 alphabets × 27 operands × fold, scan, insert × 18 starting values"},
          {"bits", 3, bits, 3, "a lone 1 or 0, or a step, at every position of lists up to 66, at 40 positions up to 200, × 17 operands"},
          {"typed", 3, typed, 3, "10 element families × 12 lengths × 3 ranges × 27 operands"},
          {"overflow", 3, overflow, 3, "a value at the limit of each type at every position of 5 lengths × 12 starting values × 7 operands"},
          {"cells", 3, cellsOf, 3, "insert and scan: 27 shapes × 10 families × 27 operands × 12 starting values"},
          {"cell-overflow", 3, cellOverflow, 3, "5 heights × 8 widths × 5 types at their limits"},
          {"tables", 3, tables, 3, "every pair of 14 shapes × 11 families each × 15 (27) operands"},
          {"table-lengths", 3, tableLengths, 3, "7 × 19 lengths × 36 family pairs × 7 operands"},
          {"each", 3, each1s, 3, "17 operands × 10 shapes × 11 families × all representations"},
          {"derived", 1, derived, 3, "folds of 17 functions and of them with ⌜ over empty lists, with and without 𝕨"},
          {"sums", 2, sums, 3, "12 lengths up to 140000 × 4 types × 3 kinds"},
          {"counting", 3, counting, 3, "+` of bits: 9 lengths × 19 numbers of ones × 5 arrangements"},
          {"huge", 2, huge, 3, "sums of up to 4.3 million numbers around 2⋆53"}};
  return mainMC(argc, argv, c);
}
