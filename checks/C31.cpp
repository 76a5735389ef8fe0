// What values say about themselves: •Type, •Glyph, •Decompose and •primitives; functions match where they are built alike; •ns and the fields of namespaces.
#include "vm.hpp"
using namespace bq; using namespace bq::vm;
typedef vector<int> Key;
struct T { int k = 0, leaf = 0; string m; vector<int> a; bool fn = false; BV b = 0, b2 = 0; string key; }; // k: 0 a leaf, 2 g h, 3 f g h, 4 f m, 5 f m g
static vector<T> TREES; static vector<BV> LEAF, LEAF2; static vector<string> LNAME; static BV DEC, TYP, GLY, MATCH, NSG, NSH, NSK; static size_t nLeaf, nOne;
static void leaf(BV a, BV b, const string& name, bool fn) { T t; t.leaf = LEAF.size(); t.fn = fn; t.key = name; LEAF.push_back(a); LEAF2.push_back(b); LNAME.push_back(name); t.b = a; t.b2 = b; TREES.push_back(t); }
static BV build(const T& t, bool second) { BV r; auto c = [&](int i) { return cb_inc(second? TREES[t.a[i]].b2 : TREES[t.a[i]].b); }; int rc = 0; switch (t.k) { case 0: return cb_inc(second? LEAF2[t.leaf] : LEAF[t.leaf]); case 2: rc = cb_atop(c(0), c(1), &r); break; case 3: rc = cb_fork(c(0), c(1), c(2), &r); break; case 4: rc = cb_m1(fnOf(t.m), c(0), &r); break; default: rc = cb_m2(fnOf(t.m), c(0), c(1), &r); } if (rc) { fprintf(stderr, "cannot build %s: %s\n", t.key.c_str(), cb_err()); _exit(4); } return r; }
static void add(T t) { t.fn = true; t.key = "("; for (size_t i = 0; i < t.a.size(); i++) { if (i==1 || (i==0 && t.a.size()==1 && false)) t.key+= t.m.size()? " "+t.m : ""; t.key+= (i? " " : "")+TREES[t.a[i]].key; } if (t.a.size()==1) t.key+= " "+t.m; t.key+= ")"; t.b = build(t, false); t.b2 = build(t, true); TREES.push_back(t); }
static const vector<const char*> MD1 = {"˜", "´", "⌜", "˙", "¨"}, MD2 = {"∘", "⊸", "⟜", "◶", "⍟", "⌾", "○"};
static void level(const vector<int>& v, size_t m1, size_t m2) { for (int f : v) { for (size_t m = 0; m < m1; m++) { T t; t.k = 4; t.m = MD1[m]; t.a = {f}; add(t); } for (int g : v) { for (size_t m = 0; m < m2; m++) { T t; t.k = 5; t.m = MD2[m]; t.a = {f, g}; add(t); } if (TREES[f].fn && TREES[g].fn) { T t; t.k = 2; t.a = {f, g}; add(t); } if (TREES[g].fn) for (int h : v) if (TREES[h].fn) { T t; t.k = 3; t.a = {f, g, h}; add(t); } } } }
static void makeTrees() {
  auto two = [&](const Val& v, const char* n) { leaf(toB(v), toB(v), n, false); }; two(Val(5), "5"); two(Val(6), "6"); two(Val::chr('a'), "'a'"); two(Val::str("ab"), "\"ab\""); two(Val::vec({Val(1), Val::str("x")}), "⟨1,\"x\"⟩"); two(Val::vec({}), "⟨⟩"); for (auto p : {"+", "⋈", "⊢", "•Type"}) leaf(cb_inc(fnOf(p)), cb_inc(fnOf(p)), p, true); nLeaf = TREES.size();
  vector<int> all; for (size_t i = 0; i < nLeaf; i++) all.push_back(i); level(all, MD1.size(), MD2.size()); nOne = TREES.size(); vector<int> some = {0, 3, 6, 7}; for (size_t i = nLeaf; i < nOne; i+= std::max<size_t>(1, (nOne-nLeaf)/9)) some.push_back(i); level(some, 2, 3);
}
static double num(Ex& ex, const string& what, BV r) { Val v = fromB(r); if (!v.isNum()) ex.fail("%s gives %s", what.c_str(), show(v).c_str()); cb_dec(r); return v.n; }
static bool match(Ex& ex, BV a, BV b) { BV r; ex.op(); ex.compared(); if (cb_c2(MATCH, cb_inc(a), cb_inc(b), &r)) ex.fail("≡ is an error: %s", cb_err()); return num(ex, "≡", r)==1; }
// --- every function tells its parts, and the parts make it again
static void trees(Ex& ex) {
  size_t i = ex.pick(TREES.size()); T& t = TREES[i]; BV r; ex.op(); ex.compared(); if (cb_c1(TYP, cb_inc(t.b), &r)) ex.fail("•Type %s: %s", t.key.c_str(), cb_err()); static const int KT[] = {1, 2, 0, 3, 4, 5, 6}; (void)KT; int kind = cb_kind(t.b); double want = kind==CK_NUM? 1 : kind==CK_CHR? 2 : kind==CK_ARR? 0 : 3; if (t.fn) want = 3; double ty = num(ex, "•Type", r); if (ty!=want) ex.fail("•Type %s is %g, expected %g", t.key.c_str(), ty, want);
  if (cb_c1(DEC, cb_inc(t.b), &r)) ex.fail("•Decompose %s: %s", t.key.c_str(), cb_err()); ex.op(); vector<BV> parts; double code = t.k; if (!t.k) { code = !t.fn? -1 : LNAME[t.leaf]=="•Type"? 1 : 0; parts = {t.b2}; } else { for (int a : t.a) parts.push_back(TREES[a].b2); if (t.m.size()) parts.insert(parts.begin()+1, fnOf(t.m)); }
  if (cb_kind(r)!=CK_ARR || cb_rank(r)!=1 || cb_ia(r)!=parts.size()+1 || cb_kind(cb_item(r, 0))!=CK_NUM) ex.fail("•Decompose %s gives %s", t.key.c_str(), show(fromB(r)).c_str()); { Val c = fromB(cb_item(r, 0)); if (c.n!=code) ex.fail("•Decompose %s begins with %g, expected %g", t.key.c_str(), c.n, code); } for (size_t k = 0; k < parts.size(); k++) { if (cb_kind(cb_item(r, k+1))!=cb_kind(parts[k]) || !match(ex, cb_item(r, k+1), parts[k])) ex.fail("•Decompose %s has a different part %zu", t.key.c_str(), k+1); }
  if (t.k) { BV q; auto p = [&](int k) { return cb_inc(cb_item(r, k)); }; int rc = t.k==2? cb_atop(p(1), p(2), &q) : t.k==3? cb_fork(p(1), p(2), p(3), &q) : t.k==4? cb_m1(cb_item(r, 2), p(1), &q) : cb_m2(cb_item(r, 2), p(1), p(3), &q); if (rc) ex.fail("the parts of %s do not make a function: %s", t.key.c_str(), cb_err()); cb_dec(r); if (!match(ex, q, t.b)) ex.fail("the parts of %s make another function", t.key.c_str()); cb_dec(q); } else cb_dec(r);
  ex.outcome(i); ex.tick();
}
// --- functions match where they are built alike, alone and inside of arrays
static void matching(Ex& ex) {
  size_t i = ex.pick(TREES.size()); const T& t = TREES[i]; size_t step = ex.thorough || i<nLeaf? 1 : 1+TREES.size()/4000; auto one = [&](size_t j) { const T& u = TREES[j]; bool e = t.key==u.key; if (match(ex, t.b, u.b2)!=e) ex.fail("%s ≡ %s is %d", t.key.c_str(), u.key.c_str(), !e); if ((i+j)%64==0 || i==j || (i<nLeaf && j<nLeaf)) { BV l[2] = {cb_inc(t.b), cb_mknum(1)}, m[2] = {cb_inc(u.b2), cb_mknum(1)}; BV a = cb_mkarr(CE_B, 2, 1, nullptr, l), b = cb_mkarr(CE_B, 2, 1, nullptr, m), r; if (match(ex, a, b)!=e) ex.fail("⟨%s,1⟩ ≡ ⟨%s,1⟩ is %d", t.key.c_str(), u.key.c_str(), !e); for (auto f : {"⊐", "∊", "≢"}) { int rc = cb_c2(fnOf(f), cb_inc(a), cb_inc(b), &r); ex.op(); if (rc) continue; if (!strcmp(f, "≢")) { if (num(ex, f, r)!=!e) ex.fail("⟨%s,1⟩ ≢ ⟨%s,1⟩", t.key.c_str(), u.key.c_str()); continue; } Val v = fromB(r); cb_dec(r); ex.compared(); Val w = !strcmp(f, "⊐")? numsV({e? 0. : t.key=="1"? 0. : 2., 1}) : numsV({e? 1. : 0., 1}); if (u.key=="1") w.n = w.n; if (!same(v, w)) ex.fail("⟨%s,1⟩ %s ⟨%s,1⟩ is %s", t.key.c_str(), f, u.key.c_str(), show(v).c_str()); } cb_dec(a); cb_dec(b); } };
  for (size_t j = i%step; j < TREES.size(); j+= step) one(j); one(i); ex.outcome(i); ex.tick();
}
// --- primitives
static void primitives(Ex& ex) {
  static const vector<string> G = {"+", "-", "×", "÷", "⋆", "√", "⌊", "⌈", "|", "¬", "∧", "∨", "<", ">", "≠", "=", "≤", "≥", "≡", "≢", "⊣", "⊢", "⥊", "∾", "≍", "⋈", "↑", "↓", "↕", "«", "»", "⌽", "⍉", "/", "⍋", "⍒", "⊏", "⊑", "⊐", "⊒", "∊", "⍷", "⊔", "!", "˙", "˜", "˘", "¨", "⌜", "⁼", "´", "˝", "`", "∘", "○", "⊸", "⟜", "⌾", "⊘", "◶", "⎉", "⚇", "⍟", "⎊"};
  size_t i = ex.pick(G.size()); BV f = fnOf(G[i].c_str()), r; int cls = i<44? 3 : i<53? 4 : 5; ex.op(3); ex.compared(3); if (cb_c1(TYP, cb_inc(f), &r) || num(ex, "•Type", r)!=cls) ex.fail("•Type %s is not %d", G[i].c_str(), cls); Val g = Val::str(G[i].c_str()).it()[0]; if (cb_c1(GLY, cb_inc(f), &r)) ex.fail("•Glyph %s: %s", G[i].c_str(), cb_err()); if (!same(r, g)) ex.fail("•Glyph %s is %s", G[i].c_str(), show(fromB(r)).c_str()); cb_dec(r);
  if (cb_eval("•primitives", &r)) ex.fail("•primitives: %s", cb_err()); int hits = 0; for (size_t k = 0; k < cb_ia(r); k++) { BV p = cb_item(r, k); if (cb_kind(p)!=CK_ARR || cb_ia(p)!=2) ex.fail("•primitives has an item that is no pair"); bool c = same(cb_item(p, 0), g), e = match(ex, cb_item(p, 1), f); if (c!=e) ex.fail("•primitives pairs %s with another glyph", G[i].c_str()); hits+= c; } if (hits!=1 || cb_ia(r)!=G.size()) ex.fail("%s is in •primitives %d times, of %zu items", G[i].c_str(), hits, (size_t)cb_ia(r)); cb_dec(r);
  if (cb_c1(DEC, cb_inc(f), &r)) ex.fail("•Decompose %s: %s", G[i].c_str(), cb_err()); if (cb_ia(r)!=2 || !same(cb_item(r, 0), Val(0)) || !match(ex, cb_item(r, 1), f)) ex.fail("•Decompose %s is not ⟨0,%s⟩", G[i].c_str(), G[i].c_str()); cb_dec(r); for (size_t k = 0; k < G.size(); k++) if (match(ex, f, fnOf(G[k].c_str()))!=(i==k)) ex.fail("%s matches %s", G[i].c_str(), G[k].c_str()); ex.outcome(i);
}
// --- data
static void data(Ex& ex) { static const vector<Sh> S = {{3}, {0}, {2, 2}, {}, {9}}; int fam = ex.pick(FAM_N); const Sh& s = ex.of(S); Val v = famArr(fam, s, 7, 3); for (int part = 0; part < 2; part++) { if (part) { if (!v.ia()) return; v = v.it()[0]; } for (auto& rp : v.isArr()? repsOf(v, 1) : vector<Rep>{{}}) { BV b = toB(v, rp), r; ex.op(2); ex.compared(2); if (cb_c1(TYP, cb_inc(b), &r) || num(ex, "•Type", r)!=(v.isArr()? 0 : v.isNum()? 1 : 2)) ex.fail("•Type %s [%s]", show(v).c_str(), rp.str().c_str()); if (cb_c1(DEC, b, &r)) ex.fail("•Decompose %s: %s", show(v).c_str(), cb_err()); if (!same(r, Val::vec({Val(-1), v}))) ex.fail("•Decompose %s is %s", show(v).c_str(), show(fromB(r)).c_str()); cb_dec(r); } } ex.outcome(fam); }
// --- namespaces of every choice of names, hidden or exported
static string up(const string& s) { string r; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c==0xc3 && i+1<s.size()) { unsigned char d = s[++i]; r+= (char)c; r+= (char)(d>=0xa0 && d<=0xbe && d!=0xb7? d-0x20 : d); } else r+= (char)toupper(c); } return r; }
static vector<string> spellings(const string& s) { vector<string> r = {s, up(s), "_"+s, s+"_", "__"+up(s)+"__"}; string a = s.substr(0, 1); if (s.size()>1 && (unsigned char)s[0]<0x80) { r.push_back(a+"_"+s.substr(1)); r.push_back(a+up(s.substr(1))); r.push_back(up(a)+s.substr(1)); } return r; }
static void namespaces(Ex& ex) {
  static const vector<string> N = {"a", "bc", "d9e", "àáâãäåæçèéêëìíîïðñòóôõöøùúûüýþ", "abcdefghijklmnopqrstuvwxyz0123456789"}; vector<int> st; for (size_t i = 0; i < N.size(); i++) st.push_back(ex.pick(3)); int rev = ex.pick(2), extra = ex.pick(2); vector<int> ord; for (size_t i = 0; i < N.size(); i++) if (st[i]) ord.push_back(i); if (rev) std::reverse(ord.begin(), ord.end()); if (ord.empty() || (rev && ord.size()<2)) return;
  Prog p; p.bl = {immBlock(0)}; Body b; b.ns = true; b.vars = ord.size()+extra; vector<Val> vals; string hist = "{"; for (size_t i = 0; i < ord.size(); i++) { b.names.push_back(N[ord[i]]); b.exported.push_back(st[ord[i]]==2); Val v = i%2? Val(10.+i) : Val::vec({Val(7.+i), Val::str("z")}); vals.push_back(v); hist+= N[ord[i]]+(st[ord[i]]==2? "⇐" : "←")+show(v)+"⋄"; } if (extra) { b.names.push_back("zz"); b.exported.push_back(0); } bool late = false; for (size_t i = 0; i < ord.size(); i++) b.st.push_back(Def(TV(0, i), C(vals[i]))); if (extra) b.st.push_back(Def(TV(0, ord.size()), C(Val(99)))); (void)late; p.bo = {b}; hist+= "}";
  bool any = false; for (int s : st) if (s==2) any = true; BV ns, r; { Compiler c(p); if (cb_c1(fnOf("•CompObj"), c.run(), &ns)) ex.fail("%s: %s", hist.c_str(), cb_err()); } ex.op(); if (cb_kind(ns)!=CK_NSP) { if (any) ex.fail("%s is no namespace", hist.c_str()); cb_dec(ns); return; }
  BV n2; { Compiler c(p); if (cb_c1(fnOf("•CompObj"), c.run(), &n2)) ex.fail("%s: %s", hist.c_str(), cb_err()); } if (cb_c1(TYP, cb_inc(ns), &r) || num(ex, "•Type", r)!=6) ex.fail("•Type %s", hist.c_str()); if (!match(ex, ns, ns) || match(ex, ns, n2)) ex.fail("%s matches another namespace, or not itself", hist.c_str()); { BV l[1] = {cb_inc(ns)}, m[1] = {cb_inc(ns)}, k[1] = {cb_inc(n2)}; BV A = cb_mkarr(CE_B, 1, 1, nullptr, l), B = cb_mkarr(CE_B, 1, 1, nullptr, m), D = cb_mkarr(CE_B, 1, 1, nullptr, k); if (!match(ex, A, B) || match(ex, A, D)) ex.fail("%s in lists", hist.c_str()); cb_dec(A); cb_dec(B); cb_dec(D); }
  if (cb_c1(DEC, cb_inc(ns), &r) || cb_ia(r)!=2 || !same(cb_item(r, 0), Val(-1)) || !match(ex, cb_item(r, 1), ns)) ex.fail("•Decompose %s", hist.c_str()); cb_dec(r);
  { if (cb_c1(NSK, cb_inc(ns), &r)) ex.fail("•ns.Keys %s: %s", hist.c_str(), cb_err()); ex.op(); ex.compared(); string why; if (!wellFormed(r, &why)) ex.fail("•ns.Keys %s is malformed: %s", hist.c_str(), why.c_str()); std::multiset<string> got, want; Val v = fromB(r); cb_dec(r); if (v.rank()!=1) ex.fail("•ns.Keys %s is no list", hist.c_str()); for (auto& k : v.it()) got.insert(show(k)); for (int i : ord) if (st[i]==2) want.insert(show(Val::str(N[i].c_str()))); if (got!=want) ex.fail("•ns.Keys %s is %s", hist.c_str(), show(v).c_str()); }
  auto ask = [&](const string& name, int idx) { for (auto& rp : repsOf(Val::str(name.c_str()), 0)) { Val nm = Val::str(name.c_str()); BV kb = toB(nm, rp), keep = cb_inc(kb); ex.op(2); ex.compared(2); if (cb_c2(NSH, cb_inc(ns), cb_inc(kb), &r)) ex.fail("%s •ns.Has \"%s\": %s", hist.c_str(), name.c_str(), cb_err()); bool h = num(ex, "•ns.Has", r)==1; if (h!=(idx>=0)) ex.fail("%s •ns.Has \"%s\" [%s] is %d", hist.c_str(), name.c_str(), rp.str().c_str(), h); int rc = cb_c2(NSG, cb_inc(ns), kb, &r); if (!rc!=(idx>=0)) ex.fail("%s •ns.Get \"%s\": %s", hist.c_str(), name.c_str(), rc? cb_err() : "no error"); if (!rc) { if (!same(r, vals[idx])) ex.fail("%s •ns.Get \"%s\" is %s", hist.c_str(), name.c_str(), show(fromB(r)).c_str()); cb_dec(r); } if (!same(keep, nm)) ex.fail("•ns changes its argument \"%s\"", name.c_str()); cb_dec(keep); } };
  for (size_t i = 0; i < N.size(); i++) { int idx = -1; if (st[i]==2) for (size_t k = 0; k < ord.size(); k++) if (ord[k]==(int)i) idx = k; for (auto& s : spellings(N[i])) ask(s, idx); } for (auto s : {"zz", "", "_", "a1", "b", "bcd", "ba", "a b", "×", "neverseen", "aa", "A_"}) { string n = s; if (n=="A_") continue; ask(n, -1); }
  for (int k = 0; k < 6; k++) { static const vector<Val> O = {Val(3), Val::chr('a'), numsV({1}), Val::vec({Val::str("a")}), Val::arr({}, {Val::chr('a')}), Val::arr({1, 1}, {Val::chr('a')})}; ex.op(2); ex.compared(2); if (!cb_c2(NSG, cb_inc(ns), toB(O[k]), &r) || !cb_c2(NSH, cb_inc(ns), toB(O[k]), &r)) ex.fail("•ns of the name %s is no error", show(O[k]).c_str()); if (!cb_c2(NSG, toB(O[k]), cb_str("a"), &r) || !cb_c2(NSH, toB(O[k]), cb_str("a"), &r) || !cb_c1(NSK, toB(O[k]), &r)) ex.fail("•ns of %s is no error", show(O[k]).c_str()); }
  cb_dec(ns); cb_dec(n2); ex.outcome(hashS(hist)); ex.tick();
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C31"; c.assumptions = {"what •Glyph gives for anything but a primitive is not judged"};
  c.init = []() { cb_init(); DEC = fnOf("•Decompose"); TYP = fnOf("•Type"); GLY = fnOf("•Glyph"); MATCH = fnOf("≡"); fnOf("•CompObj"); BV r; for (auto f : {"⊐", "∊", "≢"}) fnOf(f); auto get = [&](const char* s, BV& v) { BV q, n; if (cb_eval("•ns", &n) || cb_field(n, s, &q)) abort(); v = q; }; get("get", NSG); get("has", NSH); get("keys", NSK); (void)r; makeTrees(); cb_gc(); };
  c.perRun = gcEvery(64);
  c.sc = {{"trees", 1, trees, 3, "all functions of one step over 10 values, 5 + 7 modifiers and trains; of two steps over 13 of them"}, {"matching", 1, matching, 3, "those functions against each other, alone and in lists"}, {"primitives", 1, primitives, 3, "64 primitives"}, {"data", 2, data, 3, "22 kinds of arrays and atoms × 5 shapes"}, {"namespaces", 3, namespaces, 3, "5 names, each absent, hidden or exported, in two orders; 50 names asked for, 6 that are none"}};
  return mainMC(argc, argv, c);
}
