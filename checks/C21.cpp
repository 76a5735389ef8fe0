// Errors: every nesting of raising, catching and passing on; every failing call of every function has a proper message.
#include "gen.hpp"
#include "bqnffi.h"
using namespace bq;
extern "C" int cb_printerrs;
struct Raise { Val m; };
static BV cached(const Val& v) { static std::map<string, BV> m; string s = show(v); auto i = m.find(s); if (i!=m.end()) return i->second; return m[s] = toB(v); }
// --- trees of functions
enum { ID, THR, THRV, PRIM, CUR, LOG, IF1, BLK, EACH, REP, UND, BLK2, AT, CATCH, CATCHB, BOTH, CELL };
static const int LEAF = 7, UN = 6, BIN = 4; static const int UNK[] = {BLK, EACH, REP, UND, BLK2, CELL}, BINK[] = {AT, CATCH, CATCHB, BOTH};
struct T { int k; int a = -1, b = -1; }; struct Tree { vector<T> t; };
static int grow(Ex& ex, Tree& t, int n) { int i = t.t.size(); t.t.push_back({}); if (n==1) { t.t[i].k = ex.pick(LEAF); return i; } int o = ex.pick(UN+BIN*(n-2)); if (o<UN) { t.t[i].k = UNK[o]; int a = grow(ex, t, n-1); t.t[i].a = a; return i; } o-= UN; t.t[i].k = BINK[o%BIN]; int l = 1+o/BIN; int a = grow(ex, t, l), b = grow(ex, t, n-1-l); t.t[i].a = a; t.t[i].b = b; return i; }
static vector<string> events; static int deepest;
static BQNV logged(BQNV o, BQNV x) { events.push_back("L "+show(fromB(x))); bqn_free(o); if (cb_kind(x)==CK_NUM) { double d = cb_num(x); bqn_free(x); return bqn_makeF64(d+1); } return x; }
static const char* const LS[] = {"⊢", "(\"tt\"!0˙)", "(⟨1,\"z\"⟩!0˙)", "(⊑∘(⟨⟩˙))", "•CurrentError", "L", "(⊢⊣(\"one\"!1⊸≢))"};
static string text(const Tree& t, int i) { const T& n = t.t[i]; if (n.k<LEAF) return LS[n.k]; string a = text(t, n.a), b = n.b>=0? text(t, n.b) : ""; switch (n.k) { case BLK: return "{"+a+" 𝕩}"; case EACH: return "("+a+")¨"; case CELL: return "("+a+")˘"; case REP: return "("+a+")⍟2"; case UND: return "("+a+")⌾⊑"; case BLK2: return "{r←"+a+" 𝕩 ⋄ "+a+" r}"; case AT: return "("+a+"∘"+b+")"; case CATCH: return "("+a+"⎊"+b+")"; case CATCHB: return "{"+a+"⎊"+b+" 𝕩}"; default: return "("+a+"⋈"+b+")"; } }
static BV make(const Tree& t, int i) { // owned
  const T& n = t.t[i]; if (n.k==LOG) { static BV l = bqn_makeBoundFn1(logged, cached(Val(0))); return cb_inc(l); } if (n.k<LEAF) return cb_inc(fnOf(LS[n.k])); BV a = make(t, n.a), b = n.b>=0? make(t, n.b) : 0, r = 0; auto m1 = [&](const char* m) { if (cb_m1(fnOf(m), a, &r)) abort(); }; auto m2 = [&](const char* m, BV g) { if (cb_m2(fnOf(m), a, g, &r)) abort(); };
  auto blk = [&](const char* src) { BV it[2] = {a, b}; size_t s = b? 2 : 1; BV l = cb_mkarr(CE_B, s, 1, &s, it); if (cb_m2(fnOf("⊸"), l, cb_inc(fnOf(src)), &r)) abort(); };
  switch (n.k) { case BLK: blk("{f←⊑𝕨⋄F 𝕩}"); break; case BLK2: blk("{f←⊑𝕨⋄r←F 𝕩⋄F r}"); break; case CATCHB: blk("{f←⊑𝕨⋄g←1⊑𝕨⋄F⎊G 𝕩}"); break; case EACH: m1("¨"); break; case CELL: m1("˘"); break; case REP: m2("⍟", cb_mknum(2)); break; case UND: m2("⌾", cb_inc(fnOf("⊑"))); break; case AT: m2("∘", b); break; case CATCH: m2("⎊", b); break; default: if (cb_fork(a, cb_inc(fnOf("⋈")), b, &r)) abort(); } return r;
}
static int weight(const Val& v) { if (!v.isArr()) return 1; int r = 1; for (auto& e : v.it()) r+= weight(e); return r; }
struct Ref { const Tree& t; vector<string> ev; vector<Val> cur; 
  Val run(int i, const Val& x) { const T& n = t.t[i]; switch (n.k) { case ID: return x; case THR: throw Raise{Val::str("tt")}; case THRV: throw Raise{Val::vec({Val(1), Val::str("z")})}; case PRIM: throw Raise{Val::str("⊑𝕩: 𝕩 cannot be empty")}; case CUR: if (cur.empty()) throw Raise{Val::str("•CurrentError 𝕩: Not currently within any ⎊")}; return cur.back(); case LOG: ev.push_back("L "+show(x)); return x.isNum()? Val(x.n+1) : x; case IF1: if (x.isNum() && x.n==1) throw Raise{Val::str("one")}; return x;
    case BLK: return run(n.a, x); case BLK2: case REP: return run(n.a, run(n.a, x)); case AT: return run(n.a, run(n.b, x)); case BOTH: { Val b = run(n.b, x); Val a = run(n.a, x); if (weight(a)+weight(b)>40) throw 0; return Val::vec({a, b}); }
    case EACH: { if (!x.isArr()) return unitOf(run(n.a, x)); vector<Val> r; for (auto& e : x.it()) r.push_back(run(n.a, e)); return Val::arr(x.a->sh, r); }
    case CELL: { if (!x.isArr() || x.rank()!=1) throw 0; vector<Val> r; for (auto& e : x.it()) { Val y = run(n.a, unitOf(e)); if (y.isArr() && y.rank()==0) y = y.it()[0]; else if (y.isArr()) throw 0; r.push_back(y); } return Val::vec(r); }
    case UND: { if (!x.isArr() || !x.ia()) throw 0; vector<Val> r = x.it(); r[0] = run(n.a, r[0]); return Val::arr(x.a->sh, r); }
    case CATCH: case CATCHB: { Val e; try { return run(n.a, x); } catch (Raise& q) { e = q.m; } cur.push_back(e); try { Val r = run(n.b, x); cur.pop_back(); return r; } catch (...) { cur.pop_back(); throw; } } } abort(); } };
static void judge(Ex& ex, const string& what, BV f, const Tree& t, int root, const Val& x) {
  Ref m{t}; Val want; bool err = false; Val msg; try { want = m.run(root, x); } catch (Raise& r) { err = true; msg = r.m; } catch (int) { return; } events.clear(); int gs = cb_gsdepth(), env = cb_envdepth(); BV r; int rc = cb_c1(f, cb_inc(cached(x)), &r); ex.op(); ex.compared(3); string w = what+" "+show(x);
  if (rc!=err) ex.fail("%s\n  gives %s%s, expected %s", w.c_str(), rc? "the error " : "", rc? cb_err() : show(fromB(r)).c_str(), err? ("the error "+show(msg)).c_str() : show(want).c_str()); if (!rc) { if (!same(r, want)) ex.fail("%s\n  gives %s, expected %s", w.c_str(), show(fromB(r)).c_str(), show(want).c_str()); cb_dec(r); } else if (msg.isArr() && msg.ia() && msg.it()[0].isChr() && show(Val::str(cb_err()))!=show(msg)) ex.fail("%s\n  gives the error %s, expected %s", w.c_str(), cb_err(), show(msg).c_str());
  if (events!=m.ev) { string a, b; for (auto& e : events) a+= e+", "; for (auto& e : m.ev) b+= e+", "; ex.fail("%s\n  calls %s\n  expected %s", w.c_str(), a.c_str(), b.c_str()); } if (cb_gsdepth()!=gs || cb_envdepth()!=env) ex.fail("%s\n  leaves the stacks changed: %d, %d instead of %d, %d", w.c_str(), cb_gsdepth(), cb_envdepth(), gs, env); if (!same(cached(x), x)) ex.fail("%s\n  changes 𝕩", w.c_str());
  ex.outcome(hashS(err? show(msg) : show(want)));
}
static void trees(Ex& ex, int max) { int n = 1+ex.pick(max); Tree t; int root = grow(ex, t, n); string s = text(t, root); BV f = make(t, root); struct D { BV f; ~D() { cb_dec(f); } } d{f}; static const vector<Val> X = {Val(1), numsV({0, 1, 2}), Val::vec({Val(1), numsV({1, 0})})}; for (auto& x : X) judge(ex, s, f, t, root, x); { BV r; if (!cb_c1(fnOf("•CurrentError"), cb_mknum(0), &r)) ex.fail("%s\n  leaves •CurrentError with a value outside of any ⎊", s.c_str()); } ex.tick(); ex.state(hashS(s)); }
static void treesS(Ex& ex) { trees(ex, ex.thorough? 7 : 6); }
// --- messages
static vector<Val> pool(bool more) { vector<Val> v = {Val(5), Val(-1), Val(.5), Val::chr('c'), Val::vec({}), Val::str(""), Val::str("abc"), numsV({1, 2}), numsV({0, 1, 1}), numsV({-1, 70000}), Val::vec({Val::str("a"), Val(2)}), Val::arr({2, 3}, {1, 2, 3, 4, 5, 6}), Val::arr({2, 2}, {Val::chr('a'), Val::chr('b'), Val::chr(0x1d569), Val::chr('d')}), unitOf(Val(7)), Val::arr({2, 1, 2}, {1, 0, 1, 1}), Val::vec({numsV({1}), numsV({1, 2})})}; if (more) for (Val e : vector<Val>{Val(INFINITY), Val(-INFINITY), Val(NAN), Val(1e300), Val(4294967296.), Val::chr(0), Val::chr(0x10ffff), numsV({.5, NAN}), Val::arr({0, 3}, {}), Val::vec({Val::vec({}), Val::vec({Val::str("é"), Val::vec({Val(1)})})})}) v.push_back(e); return v; }
static const vector<const char*>& odd() { static const vector<const char*> O = {"+", "1⊸∾", "•file", "⟨+⟩", "⟨•math,1⟩", "{𝕩}"}; return O; }
static const vector<string>& fns() { static vector<string> F; if (F.size()) return F; for (auto f : {"+", "-", "×", "÷", "⋆", "√", "⌊", "⌈", "∧", "∨", "¬", "|", "≤", "<", ">", "≥", "=", "≠", "≡", "≢", "⊣", "⊢", "⥊", "∾", "≍", "⋈", "↑", "↓", "↕", "«", "»", "⌽", "⍉", "/", "⍋", "⍒", "⊏", "⊑", "⊐", "⊒", "∊", "⍷", "⊔", "!", "+´", "⌊´", "∾´", "×˝", "+`", "⊢`", "⌽¨", "+⌜", "⊑˘", "∾˘", "⊏⌾⊑", "÷⁼", "⌽⁼", "/⁼", "↕⁼", "⍉⁼", "⊏⁼", "+⍟2", "⌽⎉1", "⊑⚇1", "⊢⌾(2⊸↑)", "⊢⌾(1⊸⊑)", "⥊⌾⍉", "∾⌾⌽", "1⊸/", "⊑◶⟨⌽,⍉⟩", "+⌾÷", "⌽⍟≠", "•Cmp", "•Hash", "•Repr", "•ParseFloat", "•FromUTF8", "•ToUTF8", "•Type", "•Glyph", "•Decompose", "•PrimInd", "•HashMap", "•BQN", "•Fmt", "•CurrentError", "•math.Sin", "•math.Atan2", "•math.GCD", "•math.Comb", "•rand.Range", "•rand.Deal", "•rand.Subset", "•file.Parent", "•file.Name", "•file.At", "•ns.Get", "•ns.Keys", "•ns.Has", "8‿16•bit._cast", "•bit._add", "8•bit._mul", "•bit._not", "•UnixTime", "•MonoTime", "•FFI", "•ReBQN", "•SH", "•FBytes", "•FChars", "•FLines", "•Import", "•file.List", "•file.Type", "•file.Size", "•MakeRand", "•GetLine"}) F.push_back(f); return F; }
static void checkMsg(Ex& ex, const string& what, int rc, const string& printed) {
  if (!rc) return; string e = cb_err(); ex.compared(); if (what.find("!")!=string::npos) return; if (e.empty()) ex.fail("%s\n  gives an error without a message", what.c_str()); for (size_t i = 0; i+1 < e.size(); i++) if (e[i]=='%' && isalpha(e[i+1])) ex.fail("%s\n  gives an error whose message is not filled in: %s", what.c_str(), e.c_str());
  for (size_t i = 0; i < e.size();) { unsigned c = (unsigned char)e[i]; int l = c<0x80? 1 : c>>5==6? 2 : c>>4==14? 3 : c>>3==30? 4 : 0; if (!l || (c<32 && c!='\n' && c!=0)) ex.fail("%s\n  gives an error whose message is no text", what.c_str()); i+= l; } if (printed!=e && e!="(non-string error)") ex.fail("%s\n  gives the error %s, printed as %s", what.c_str(), e.c_str(), printed.c_str()); ex.outcome(hashS(e));
}
struct Limit { uint64_t m; Limit() { if (cb_heap_used()>(1u<<27)) cb_gc(); m = cb_heapmax(); cb_set_heapmax(std::max<uint64_t>(cb_heap_used()+(24u<<20), cb_heap_alloc())); } ~Limit() { cb_set_heapmax(m); } }; // what is far too large is refused at once
static string errOut(const std::function<void()>& f) { static FILE* m = nullptr; static char* b = nullptr; static size_t n = 0; if (!m) m = open_memstream(&b, &n); rewind(m); FILE* o = stderr; stderr = m; cb_printerrs = 1; f(); cb_printerrs = 0; fflush(m); stderr = o; return string(b, n); }
static const vector<string>& usable() { static vector<string> U; static bool done; if (!done) { done = true; for (auto& f : fns()) { BV r; if (f=="•GetLine" || f=="•SH" || f=="•BQN" || f=="•Import" || f=="•ReBQN") { if (f=="•SH" || f=="•GetLine") continue; } if (cb_eval(f.c_str(), &r)) continue; cb_dec(r); fnOf(f); U.push_back(f); } } return U; }
static vector<BV>& args(bool more) { static vector<BV> A[2]; auto& a = A[more]; if (a.empty()) { for (auto& v : pool(more)) a.push_back(toB(v)); for (auto o : odd()) { BV r; if (cb_eval(o, &r)) { fprintf(stderr, "%s: %s\n", o, cb_err()); _exit(4); } a.push_back(r); } } return a; }
static string argName(bool more, int i) { auto p = pool(more); return i<(int)p.size()? show(p[i]) : odd()[i-p.size()]; }
static void messages(Ex& ex) {
  const string& f = ex.of(usable()); bool more = ex.thorough; auto& A = args(more); int w = ex.pick(A.size()+1)-1; BV fn = fnOf(f); if (cb_kind(fn)!=CK_FUN) return; static std::map<string, BV> CM; if (!CM.count(f)) { BV r; if (cb_m2(fnOf("⎊"), cb_inc(fn), cb_inc(fnOf("•CurrentError")), &r)) abort(); CM[f] = r; }
  for (size_t x = 0; x < A.size(); x++) { ex.tick(); Limit lim; string what = (w>=0? argName(more, w)+" " : string())+f+" "+argName(more, x); int gs = cb_gsdepth(), env = cb_envdepth(); BV r; int rc; string p = errOut([&]() { rc = w>=0? cb_c2(fn, cb_inc(A[w]), cb_inc(A[x]), &r) : cb_c1(fn, cb_inc(A[x]), &r); }); ex.op(); string m = rc? cb_err() : ""; if (!rc) cb_dec(r); checkMsg(ex, what, rc, p); if (cb_gsdepth()!=gs || cb_envdepth()!=env) ex.fail("%s\n  leaves the stacks changed", what.c_str());
    if (rc) { BV c = CM[f]; int rd = w>=0? cb_c2(c, cb_inc(A[w]), cb_inc(A[x]), &r) : cb_c1(c, cb_inc(A[x]), &r); ex.op(); if (f=="•CurrentError") { if (!rd) cb_dec(r); continue; } if (rd) { if (w>=0) continue; /* •CurrentError has no 𝕨 */ if (strstr(cb_err(), "reserved")) continue; ex.fail("%s\n  fails with “%s”, which ⎊•CurrentError does not catch: %s", what.c_str(), m.c_str(), cb_err()); } char* u = cb_utf8(r); if (m!="(non-string error)" && (!u || m!=u)) ex.fail("%s\n  fails with “%s”, but •CurrentError is %s", what.c_str(), m.c_str(), u? u : "no text"); free(u); cb_dec(r); } }
  ex.state(hashS(f)*64+w);
}
static void raised(Ex& ex) { // any value as an error message: kept by •CurrentError, printed by whoever prints it
  bool more = ex.thorough; auto& A = args(true); (void)more; int i = ex.pick(A.size()), how = ex.pick(4); BV r; string p; int rc = 0; static BV bang = fnOf("!"), cur = fnOf("•CurrentError"), con = fnOf("⎊"); string nm = argName(true, i); 
  if (how==0) { p = errOut([&]() { rc = cb_c2(bang, cb_inc(A[i]), cb_mknum(0), &r); }); ex.op(); if (!rc) ex.fail("%s ! 0\n  is no error", nm.c_str()); if (p.empty() && cb_kind(A[i])==CK_ARR && cb_ia(A[i])) ex.fail("%s ! 0\n  is printed as nothing", nm.c_str()); }
  else if (how==1) { BV t = fnOf("⊣!0˙"); BV f; if (cb_m2(con, cb_inc(t), cb_inc(fnOf("•CurrentError∘⊣")), &f)) abort(); rc = cb_c2(f, cb_inc(A[i]), cb_mknum(3), &r); ex.op(); if (rc && strstr(cb_err(), "reserved")) return; if (rc) ex.fail("%s (!⟜0)⎊•CurrentError\n  fails: %s", nm.c_str(), cb_err()); ex.compared(); if (cb_kind(A[i])==CK_NSP) ; else if (r!=A[i] && !cb_equal(r, A[i])) { Val a = fromB(r), b = fromB(A[i]); if (show(a)!=show(b)) ex.fail("%s raised and caught is %s", nm.c_str(), show(a).c_str()); } cb_dec(r); cb_dec(f); }
  else if (how==2) { p = errOut([&]() { rc = cb_c1(bang, cb_inc(A[i]), &r); }); ex.op(); if (!rc) cb_dec(r); else if (cb_kind(A[i])==CK_NUM && cb_num(A[i])==1) ex.fail("!1 is an error"); if (!rc && !(cb_kind(A[i])==CK_NUM && cb_num(A[i])==1)) ex.fail("!%s\n  is no error", nm.c_str()); if (rc && p.empty() && !(cb_kind(A[i])==CK_ARR && cb_ia(A[i])==0)) ex.fail("!%s\n  is printed as nothing", nm.c_str()); }
  else { for (size_t j = 0; j < A.size(); j++) { p = errOut([&]() { rc = cb_c2(bang, cb_inc(A[i]), cb_inc(A[j]), &r); }); ex.op(); bool one = cb_kind(A[j])==CK_NUM && cb_num(A[j])==1; if (one!=!rc) ex.fail("%s ! %s\n  is %s error", nm.c_str(), argName(true, j).c_str(), rc? "an" : "no"); if (!rc) cb_dec(r); } }
  ex.state(i*4+how);
}
// --- running out of stack
static void deep(Ex& ex) { // endless recursion is an error like any other, at any depth, however often
  static const vector<const char*> R = {"{f←𝕨⋄𝕨 F 𝕩}", "{f←𝕨⋄1+𝕨 F 𝕩+1}", "{f←𝕨⋄⟨𝕨 F 𝕩⟩}", "{f←𝕨⋄𝕨 F¨ 𝕩}", "{f←𝕨⋄r←𝕨 F 𝕩⋄r}", "{f←𝕨⋄𝕨 F⎊⊢ 𝕩}", "{f←𝕨⋄𝕨 F⍟1 𝕩}", "{f←𝕨⋄𝕨 ⊣⊸F 𝕩}", "{f←𝕨⋄+´𝕨 F 𝕩}", "{f←𝕨⋄𝕨 F⌜ 𝕩}", "{f←𝕨⋄𝕨 (⊢F) 𝕩}", "{f←𝕨⋄a←↕9⋄(𝕨 F 𝕩)∾a}"}; const char* s = ex.of(R); BV f; if (cb_eval(s, &f)) ex.fail("%s: %s", s, cb_err()); int xi = ex.pick(2), outer = ex.pick(3); BV x = xi? cached(numsV({3, 4})) : cached(Val(3)), r, g = 0; int gs = cb_gsdepth(), env = cb_envdepth(); bool catches = strstr(s, "⎊");
  if (outer && cb_m2(fnOf("⎊"), cb_inc(f), cb_inc(fnOf(outer==1? "\"caught\"˙" : "•CurrentError∘⊢")), &g)) abort(); for (int k = 0; k < 3; k++) { ex.tick(); int rc = cb_c2(outer? g : f, cb_inc(f), cb_inc(x), &r); ex.op(); ex.compared(); if (catches) { if (!rc) cb_dec(r); } else if (!outer) { if (!rc) ex.fail("%s\n  is no error", s); if (!strstr(cb_err(), "tack overflow")) ex.fail("%s\n  gives the error %s", s, cb_err()); } else { if (rc) ex.fail("%s caught\n  gives the error %s", s, cb_err()); char* u = cb_utf8(r); if (!u || !strstr(u, outer==1? "caught" : "tack overflow")) ex.fail("%s caught\n  gives %s", s, show(fromB(r)).c_str()); free(u); cb_dec(r); } if (cb_gsdepth()!=gs || cb_envdepth()!=env) ex.fail("%s\n  leaves the stacks changed", s); }
  if (g) cb_dec(g); cb_dec(f); BV q; if (cb_eval("(+´↕5)≡10", &q)) ex.fail("%s\n  leaves evaluation broken: %s", s, cb_err()); cb_dec(q); ex.state(hashS(s)*8+outer*2+xi);
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C21"; c.useStates = true;
  c.init = []() { cb_init(); for (int i = 0; i < LEAF; i++) if (i!=LOG) fnOf(LS[i]); usable(); args(false); args(true); for (auto f : {"¨", "˘", "⍟", "⌾", "⊑", "∘", "⎊", "⊸", "⋈", "{f←⊑𝕨⋄F 𝕩}", "{f←⊑𝕨⋄r←F 𝕩⋄F r}", "{f←⊑𝕨⋄g←1⊑𝕨⋄F⎊G 𝕩}", "!", "•CurrentError∘⊣", "⊣!0˙"}) fnOf(f); cb_gc(); };
  c.perRun = gcEvery(200);
  c.sc = {{"trees", 5, treesS, 3, "every function of up to 6 (7) nodes from 7 leaves, 6 unary and 4 binary forms, on 3 arguments"},
          {"messages", 2, messages, 3, "every call of the listed functions on 22 (32) values, with and without 𝕨"},
          {"raised", 2, raised, 3, "every value as message and as condition"},
          {"deep", 2, deep, 3, "12 endless recursions, caught or not, three times"}};
  return mainMC(argc, argv, c);
}
