// Values never change: after every history of operations on values that share storage, every name holds exactly what it was given, and results do not depend on the history.
#include "gen.hpp"
using namespace bq;
static const char* const OPS1[] = {"⌽", "⊢", "∾⟜1", "∾⟜\"a\"", "5⊸∾", "1⊸↓", "¯1⊸↓", "(2⌊≠)⊸↑", "1⊸⌽", "⍉", "⥊", "⟨2,∘⟩⊸⥊", "∧", "∨", "⍋", "⍒", "/∘(3⊸|)", "+⟜1", "+⟜1000", "÷⟜2", "-", "¬", "<", "≍", "⊏", "⊑", "⟨1,0⟩⊸⊏", "⍷", "⊐˜", "∊⟜⌽", "0⌾(0⊸⊑)", "300⌾(1⊸⊑)", "'x'⌾(0⊸⊑)", "⟨1,2⟩⌾(¯1⊸⊑)", "⌽⌾(¯1⊸↓)", "(+⟜70000)⌾(0⊸⊏)", "(∾⟜5)⌾⊑", "-⌾(1⊸↓)", "+`", "⌈`", "⍋⊸⊔", "⌽˘", "⌽¨", "⋈", "⋈˜", "×´", "∾´", "⊐⟜2", "(3⊸|)⊸/", "5⊸»", "6⊸«", "⊣˝", "{𝕩}", "{a←𝕩⋄a↩a∾2⋄a}", "{a←𝕩⋄b←a⋄a↩a∾2⋄b}", "{a←𝕩⋄b←a⋄a↩⌽a⋄b∾a}", "{a←𝕩⋄a↩7⌾(0⊸⊑)a⋄a⋈𝕩}", "•internal.Squeeze", "(!∘⊑)⊸⊢"};
static const char* const OPS2[] = {"∾", "⋈", "+", "×", "⌈", "=", "≍", "⊏", "{(3|𝕨)/𝕩}", "⊣", "⊐", "⍋", "∊", "⊑", "{(4|(3⌊≠𝕨)↑𝕨)⥊𝕩}", "{(5|𝕨)⊔𝕩}", "≡", "{(⊑𝕨)⌾(0⊸⊑)𝕩}", "{𝕨⌾(0⊸⊑)𝕩}", "{b←𝕩⋄b↩b∾1⋄𝕨⋈𝕩∾b}", "⋈¨", "+⌜", "↓", "⌽", "»"};
static const int N1 = sizeof(OPS1)/sizeof(char*), N2 = sizeof(OPS2)/sizeof(char*);
static void ser(const Val& v, string& s) { if (v.isNum()) { double d = v.n; s+= 'n'; s.append((char*)&d, 8); } else if (v.isChr()) { s+= 'c'; uint32_t c = v.c; s.append((char*)&c, 4); } else if (v.isArr()) { s+= v.a->fs==F_NONE? 'b' : 'a'; for (auto x : v.a->sh) s+= mc::strf("%zu,", x); s+= ':'; for (auto& e : v.it()) ser(e, s); if (v.fill()) { s+= '/'; if (v.ia()==0) ser(*v.fill(), s); } } else s+= 'f'; }
static size_t leaves(const Val& v, int d = 0) { if (d>6) return 1000; if (!v.isArr()) return 1; size_t n = 1; for (auto& e : v.it()) n+= leaves(e, d+1); return n; }
static bool plain(const Val& v) { if (v.isArr()) { for (auto& e : v.it()) if (!plain(e)) return false; return true; } return v.isNum() || v.isChr(); }
static std::unordered_map<string, Outcome> memo; static size_t memoSz;
static const Outcome& fresh(int op, const Val* w, const Val& x) { // the operation on new values nobody else holds
  string k = mc::strf("%d|", op); if (w) { ser(*w, k); k+= '|'; } ser(x, k); auto it = memo.find(k); if (it!=memo.end()) return it->second; if (memoSz>3000000) { memo.clear(); memoSz = 0; } BV r; int rc = w? cb_c2(fnOf(OPS2[op-N1]), toB(*w), toB(x), &r) : cb_c1(fnOf(OPS1[op]), toB(x), &r); Outcome o; o.err = rc; if (!rc) { o.v = fromB(r); cb_dec(r); } memoSz+= k.size()/8+60+(rc? 0 : leaves(o.v)); return memo[k] = o; }
struct Var { BV b; Val v; };
static const vector<Val>& inits() { static vector<Val> I; if (I.empty()) { auto iota = [](int n, double f, double o) { vector<Val> v; for (int i = 0; i < n; i++) v.push_back(Val(i*f+o)); return v; }; I = {Val::vec(iota(5, 1, 0)), Val::str("abca"), Val::arr({2, 3}, iota(6, 1, 1)), Val::vec({Val::vec({Val(1), Val(2)}), Val::str("xy"), Val(3)}), Val::vec([]() { vector<Val> v; for (int i = 0; i < 70; i++) v.push_back(Val((double)(i%3==0))); return v; }()), Val::vec(iota(9, 0.5, -1)), Val::arr({2, 2}, {Val::vec({Val(1)}), Val::chr('a'), Val::str("b"), Val(0)}), Val::vec({Val(3), Val(1), Val(2), Val(1)}), Val::vec({}), Val::vec(iota(20, 40000, 0)), Val(5)}; } return I; }
static string hist; static uint64_t sig(const vector<Var>& vs) { string s; for (auto& v : vs) { ser(v.v, s); if (cb_kind(v.b)==CK_ARR) s+= mc::strf("%d.%d.%d.%d;", cb_type(v.b), cb_elt(v.b), cb_flags(v.b), cb_refc(v.b)>1); } for (size_t i = 0; i < vs.size(); i++) for (size_t j = 0; j < i; j++) s+= vs[i].b==vs[j].b? '=' : '.'; return hashS(s); }
static void verify(Ex& ex, vector<Var>& vs) { for (size_t i = 0; i < vs.size(); i++) { ex.compared(); string why; if (!wellFormed(vs[i].b, &why)) ex.fail("%s\n  leaves a malformed value in %c: %s", hist.c_str(), (int)('a'+i), why.c_str()); if (!same(vs[i].b, vs[i].v)) ex.fail("%s\n  leaves %c as %s\n  expected %s", hist.c_str(), (int)('a'+i), show(fromB(vs[i].b)).c_str(), show(vs[i].v).c_str()); } }
static const int* few; static int nfew; // the operations that may reuse an argument's storage
static void step(Ex& ex, vector<Var>& vs, int d, bool& stop) {
  int op = few? few[ex.pick(nfew)] : ex.pick(N1+N2), src = ex.pick(vs.size()), dst; const char* nm = op<N1? OPS1[op] : OPS2[op-N1]; const Outcome* o; BV r; int rc; 
  if (op<N1) { dst = ex.pick(vs.size()); hist+= mc::strf(" ⋄ %c%s%s %c", 'a'+dst, "←", nm, 'a'+src); o = &fresh(op, nullptr, vs[src].v); BV x; if (src==dst) { x = vs[src].b; if (o->err) cb_inc(x); } else x = cb_inc(vs[src].b); rc = cb_c1(fnOf(nm), x, &r); if (src==dst && !rc) vs[src].b = cb_mknum(0); if (src==dst && rc && !o->err) { ex.fail("%s\n  is an error: %s", hist.c_str(), cb_err()); } }
  else { int s2 = ex.pick(vs.size()); dst = ex.pick(vs.size()); hist+= mc::strf(" ⋄ %c←%c %s %c", 'a'+dst, 'a'+src, nm, 'a'+s2); Val w = vs[src].v, x = vs[s2].v; o = &fresh(op, &w, x); BV wb, xb; bool took = !o->err; BV old = vs[dst].b; // the variable assigned gives its own reference away, like a last use
    wb = took && src==dst? old : cb_inc(vs[src].b); xb = took && s2==dst && src!=dst? old : cb_inc(vs[s2].b); bool gone = took && (src==dst || s2==dst); rc = cb_c2(fnOf(nm), wb, xb, &r); if (gone) vs[dst].b = cb_mknum(0); }
  ex.op(); if (rc && !o->err) ex.fail("%s\n  is an error: %s\n  expected %s", hist.c_str(), cb_err(), show(o->v).c_str()); if (!rc && o->err) ex.fail("%s\n  gives %s, but an error on fresh values", hist.c_str(), show(fromB(r)).c_str());
  if (rc) { verify(ex, vs); stop = d>0; return; } Val rv = o->v; cb_dec(vs[dst].b); vs[dst].b = r; vs[dst].v = rv; if (!plain(rv)) { stop = true; } verify(ex, vs); if (leaves(rv)>260) stop = true; }
static std::unordered_map<uint64_t, uint64_t> owner; // the first history of this process reaching a state, the only one continued
static void histories(Ex& ex, int nv, int depth, size_t ni) {
  vector<Var> vs; const Val& a = inits()[ex.pick(ni)]; auto reps = repsOf(a, 0); hist = "a←"+show(a); int al = nv>1? ex.pick(2) : 0; vs.push_back({toB(a), a}); for (int i = 1; i < nv; i++) { if (al) { vs.push_back({cb_inc(vs[0].b), a}); hist+= mc::strf(" ⋄ %c←a", 'a'+i); } else { const Val& b = inits()[(i*5+3)%ni]; vs.push_back({toB(b), b}); hist+= mc::strf(" ⋄ %c←%s", 'a'+i, show(b).c_str()); } }
  bool stop = false; for (int d = 0; d < depth && !stop; d++) { step(ex, vs, d, stop); if (!stop && d<depth-1) { uint64_t h = sig(vs); ex.state(h); if (!ex.replay) { auto it = owner.emplace(h*131+(depth-d), hashS(hist)); if (it.first->second!=hashS(hist)) stop = true; } } }
  for (auto& v : vs) cb_dec(v.b); ex.outcome(hashS(hist)); }
static void two(Ex& ex) { histories(ex, 2, 2, inits().size()); }
static void one(Ex& ex) { histories(ex, 1, ex.thorough? 4 : 3, inits().size()); }
static vector<int> names(std::initializer_list<const char*> l) { vector<int> r; for (auto n : l) { int k = -1; for (int i = 0; i < N1; i++) if (!strcmp(OPS1[i], n)) k = i; for (int i = 0; i < N2; i++) if (!strcmp(OPS2[i], n) && k<0) k = N1+i; if (k<0) { fprintf(stderr, "no operation %s\n", n); abort(); } r.push_back(k); } return r; }
static void three(Ex& ex) { static vector<int> f = names({"⌽", "∾⟜1", "∾⟜\"a\"", "1⊸↓", "∧", "+⟜1", "<", "0⌾(0⊸⊑)", "300⌾(1⊸⊑)", "{a←𝕩⋄b←a⋄a↩a∾2⋄b}", "⋈", "∾", "+", "{𝕨⌾(0⊸⊑)𝕩}"}); few = f.data(); nfew = f.size(); histories(ex, 2, 3, inits().size()); few = nullptr; }
static void all3(Ex& ex) { histories(ex, 2, 3, 5); }
int main(int argc, char** argv) {
  mc::Config c; c.property = "C20"; c.assumptions = {"the result of an operation on fresh values is right (C01 to C13)", "a prefix that reaches a state (values, stored forms, sharing) already reached with as many steps left is not continued"};
  c.init = []() { cb_init(); for (auto s : OPS1) fnOf(s); for (auto s : OPS2) fnOf(s); inits(); cb_gc(); };
  c.perRun = gcEvery(2048); c.useStates = true;
  c.sc = {{"one", 2, one, 3, "11 values: all histories of 3 (4) of 85 operations on one name"},
          {"two", 3, two, 3, "11 pairs of values, shared or not: all histories of 2 operations, every source and target"},
          {"three", 4, three, 3, "11 pairs: all histories of 3 of the 14 operations that reuse storage"},
          {"all3", 4, all3, 2, "5 pairs: all histories of 3 operations, as far as the time allows"}};
  return mainMC(argc, argv, c);
}
