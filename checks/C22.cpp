// Source text: every string of tokens, compiled by the real compiler and run, against a parser that follows the grammar.
#include "vm.hpp"
using namespace bq; using namespace bq::vm;
// --- tokens
enum TK { LIT, NAME, PUN };
struct Tok { string text; int k; int role; N n; string name; char p; }; // role: 0 function, 1, 2 modifiers, 3 subject
static Tok lit(const string& t, int role, N n) { return Tok{t, LIT, role, n, "", 0}; }
static Tok prim(const string& t, int role) { return lit(t, role, P(t)); }
static Tok sub(const string& t, Val v) { return lit(t, 3, C(v)); }
static Tok pun(const string& t) { return Tok{t, PUN, -1, nullptr, "", t=="⟨"? '<' : t=="⟩"? '>' : t=="←"? '=' : t=="↩"? '~' : t=="⋄" || t=="," || t=="\n"? ';' : t[0]}; }
static Tok nm(const string& t) { string l = t; for (auto& c : l) c = tolower(c); return Tok{t, NAME, isupper(t[0])? 0 : 3, nullptr, l, 0}; }
static string join(const vector<Tok>& t) { string r; for (auto& e : t) r+= (r.empty() || e.text=="\n"? "" : " ")+e.text; return r; }
// --- parsing
struct Bad {}; struct Unclear {}; // no program; one whose meaning the checked subset does not fix
struct Parser {
  const vector<Tok>& t; bool fn; vector<string> vars, def; size_t i = 0;
  Parser(const vector<Tok>& t, bool fn) : t(t), fn(fn) { }
  int var(const string& s) { if (fn) { if (s=="𝕩") return 1; if (s=="𝕨") return 2; } for (size_t k = 0; k < vars.size(); k++) if (vars[k]==s) return k+(fn? 3 : 0); vars.push_back(s); return vars.size()-1+(fn? 3 : 0); }
  struct El { int role; N n; int asg = 0; string name; }; // asg: 1 ←, 2 ↩
  bool is(char c) { return i<t.size() && t[i].k==PUN && t[i].p==c; }
  vector<El> elems() { // up to a separator, a closing bracket or the end
    vector<El> r;
    while (i<t.size() && !is(';') && !is(')') && !is('>') && !is('}')) {
      const Tok& e = t[i]; El q;
      if (e.k==LIT) { q.role = e.role; q.n = e.n; i++; }
      else if (e.k==NAME) { i++; q.role = e.role; q.name = e.name; if (is('=') || is('~')) { q.asg = is('=')? 1 : 2; i++; } else q.n = V(0, var(e.name)); }
      else if (is('(')) { i++; El x = expr(elems()); if (!is(')')) throw Bad(); i++; q = x; }
      else if (is('<')) { i++; vector<N> v; for (;;) { while (is(';')) i++; if (is('>')) break; v.push_back(expr(elems()).n); if (!is(';') && !is('>')) throw Bad(); } i++; q.role = 3; q.n = L(v); }
      else throw Bad();
      while (is('.')) { i++; if (q.asg || q.role!=3 || i>=t.size() || t[i].k!=NAME) throw Bad(); q.n = Fld(q.n, t[i].name); q.role = t[i].role; i++; }
      r.push_back(q);
    }
    return r;
  }
  El expr(const vector<El>& e) {
    if (e.empty()) throw Bad();
    if (e.size()==1 && !e[0].asg) return e[0];
    vector<El> u; // modifiers applied
    for (size_t k = 0; k < e.size(); k++) { El q = e[k]; if (q.role==1 || q.role==2) throw Bad(); if (!q.asg) while (k+1<e.size() && !e[k+1].asg && (e[k+1].role==1 || e[k+1].role==2)) { k++; if (e[k].role==1) q = El{0, M1(e[k].n, q.n)}; else { if (k+1>=e.size() || e[k+1].asg || e[k+1].role==1 || e[k+1].role==2) throw Bad(); q = El{0, M2(e[k].n, q.n, e[k+1].n)}; k++; } } u.push_back(q); }
    if (u.back().asg) throw Bad(); return u.back().role==3? El{3, subE(u, 0)} : El{0, funE(u, 0)};
  }
  N assign(const El& q, N x) { N v = TV(0, var(q.name)); if (q.asg==2) return Set(v, x); for (auto& d : def) if (d==q.name) throw Unclear(); if (q.name=="𝕩" || q.name=="𝕨") throw Unclear(); def.push_back(q.name); return Def(v, x); }
  N subE(const vector<El>& u, size_t k) {
    const El& q = u[k]; bool last = k+1==u.size();
    if (q.asg) { if (q.role!=3) throw Bad(); return assign(q, subE(u, k+1)); }
    if (q.role==3) { if (last) return q.n; if (u[k+1].asg || u[k+1].role!=0 || k+2>=u.size()) throw Bad(); return C2(u[k+1].n, q.n, subE(u, k+2)); }
    if (last) throw Bad(); return C1(q.n, subE(u, k+1));
  }
  N funE(const vector<El>& u, size_t k) {
    if (u[k].asg) { if (u[k].role!=0 || k+1>=u.size()) throw Bad(); bool more = u[k+1].asg; N r = assign(u[k], funE(u, k+1)); if (more) throw Unclear(); return r; }
    size_t n = u.size()-k; for (size_t j = 0; j < n; j++) { const El& q = u[u.size()-1-j]; if (q.asg || (q.role!=0 && (q.role!=3 || j==0 || j%2==1))) throw Bad(); }
    N r = u.back().n; size_t j = u.size()-1; while (j>k) { if (j>=k+2) { r = Fork(u[j-2].n, u[j-1].n, r); j-= 2; } else { r = Atop(u[j-1].n, r); j--; } } return r;
  }
  vector<N> program() { vector<N> r; for (;;) { while (is(';')) i++; if (i>=t.size()) break; r.push_back(expr(elems()).n); if (i<t.size() && !is(';')) throw Bad(); } if (r.empty()) throw Bad(); return r; }
};
static long unclear, valid;
// one program; fn: the tokens are the body of {…}, which is called
static void tryOne(Ex& ex, const vector<Tok>& t, const string& src, bool fn, const vector<Val>& xs, const vector<Val>& ws, const Prog* nsp = nullptr) {
  int st = 0; Prog p; if (fn) { fn = false; for (auto& e : t) if (e.k==NAME && (e.name=="𝕩" || e.name=="𝕨")) fn = true; } // a block without arguments is evaluated at once
  try { Parser ps(t, fn); vector<N> s = ps.program(); p.bl = {immBlock(0)}; p.bo.resize(1); Body b; b.vars = ps.vars.size(); b.st = s; if (fn) { p.bl.push_back(fnBlock(1)); p.bo.push_back(b); Body o; o.st = {Bl(1)}; p.bo[0] = o; } else p.bo[0] = b; } catch (Bad&) { st = 1; } catch (Unclear&) { st = 2; }
  BV r; int rc = cb_eval(src.c_str(), &r); ex.op(); ex.compared();
  if (rc) { if (!strncmp(cb_err(), "VM compiler", 11) && st!=1) ex.fail("%s\n  is compiled to invalid bytecode: %s", src.c_str(), cb_err()); if (st==1 || st==2) return; }
  if (st) { // anything but a crash would do for what is unclear
    if (st==2) { cb_dec(r); return; } if (!fn) ex.fail("%s\n  is no program, but gives %s", src.c_str(), show(fromB(r)).c_str());
    if (cb_kind(r)==CK_FUN) { BV q; if (!cb_c1(r, toB(xs[0]), &q)) { string g = show(fromB(q)); ex.fail("%s\n  is no program, but called gives %s", src.c_str(), g.c_str()); } cb_dec(r); return; } ex.fail("%s\n  is no program, but gives %s", src.c_str(), show(fromB(r)).c_str()); }
  Pair q(ex, p); q.hist = "   # "+src; Outcome o = outcomeOf([&]() { return q.m.start(); }); ex.outcome(o.err? 0x55 : 0x66);
  if (o.unspec) { if (!rc) cb_dec(r); return; }
  if (rc && !o.err) ex.fail("%s\n  fails: %s\n  expected %s", src.c_str(), cb_err(), Machine::isFn(o.v)? "a function" : show(o.v).c_str()); if (!rc && o.err) ex.fail("%s\n  gives %s, expected an error", src.c_str(), show(fromB(r)).c_str());
  if (o.err) return; q.b = r; q.v = o.v; q.compare(r, o.v, fn? 0 : 2);
  if (fn && Machine::isFn(q.v)) q.exercise(xs, ws, 2, 1);
}
static const vector<Tok>& alphabet(int a) {
  static const vector<vector<Tok>> A = {
    {sub("1", Val(1)), nm("a"), nm("A"), prim("-", 0), prim("⋈", 0), prim("˜", 1), prim("∘", 2), pun("("), pun(")"), pun("⟨"), pun("⟩"), pun("←"), pun("↩"), pun("⋄"), pun("."), sub("\"xy\"", Val::str("xy")), nm("b"), prim("¨", 1)},
    {nm("𝕩"), nm("𝕨"), nm("a"), nm("A"), prim("⋈", 0), prim("-", 0), prim("˜", 1), prim("⊸", 2), pun("("), pun(")"), pun("⟨"), pun("⟩"), pun("←"), pun("⋄"), sub("1", Val(1)), pun("↩")},
    {prim("⋈", 0), sub("1", Val(1)), prim("˜", 1), prim("∘", 2)},
    {pun("("), pun(")"), pun("⟨"), pun("⟩"), sub("1", Val(1)), prim("⋈", 0), pun("⋄")},
    {nm("a"), nm("A"), pun("←"), pun("↩"), prim("⋈", 0), pun("⋄"), sub("2", Val(2))},
    {pun("("), pun(")"), prim("⋈", 0), prim("-", 0), prim("˜", 1), prim("⊸", 2), sub("1", Val(1))},
    {nm("𝕩"), nm("𝕨"), prim("⋈", 0), pun("("), pun(")"), prim("⊸", 2)},
    {nm("𝕩"), nm("𝕨"), nm("b"), nm("B"), pun("←"), pun("⋄"), prim("⋈", 0)},
    {nm("𝕨"), prim("⊢", 0), prim("⊣", 0), prim("⋈", 0), prim("⟜", 2), pun("⟨"), pun("⟩"), pun("⋄")},
    {prim("+", 0), prim("⋈", 0), sub("1", Val(1)), sub("2", Val(2)), prim("○", 2), prim("⊘", 2), prim("˜", 1), prim("˙", 1)}};
  return A[a];
}
// --- fields: 𝕩 is a namespace with fields b and c
static BV nspB = 0; static Prog nspP;
static void makeNsp() { nspP.bl = {immBlock(0)}; Body b; b.vars = 2; b.names = {"b", "c"}; b.exported = {1, 1}; b.ns = true; b.st = {Def(TV(0, 0), C(Val(3))), Def(TV(0, 1), P("⋈"))}; nspP.bo = {b}; Compiler c(nspP); if (cb_c1(fnOf("•CompObj"), c.run(), &nspB)) abort(); }
static void fields(Ex& ex) {
  static const vector<Tok> A = {nm("𝕩"), pun("."), nm("b"), nm("C"), prim("⋈", 0), pun("("), pun(")"), pun("⟨"), pun("⟩"), prim("˜", 1), nm("a"), pun("←"), pun("⋄"), prim("⊸", 2)}; vector<Tok> t; int n = A.size(), max = ex.thorough? 6 : 5;
  for (int k = 0; k < 3; k++) t.push_back(A[ex.pick(n)]);
  std::function<void(int)> rec = [&](int left) { bool any = false; for (auto& e : t) if (e.name=="𝕩") any = true;
    for (int form = 0; form < (any? 2 : 0); form++) { vector<Tok> u = t; if (form) { u = {nm("a"), pun("←"), nm("𝕩"), pun("⋄")}; for (auto& e : t) u.push_back(e.name=="𝕩"? nm("a") : e); }
      string src = "{"+join(u)+"}"; int st = 0; Prog p; try { Parser ps(u, true); vector<N> s = ps.program(); Body b; b.vars = ps.vars.size(); b.st = s; Body o; o.st = {Bl(1)}; p.bl = {immBlock(0), fnBlock(1)}; p.bo = {o, b}; } catch (Bad&) { st = 1; } catch (Unclear&) { st = 2; }
      BV f, r; int rc = cb_eval(src.c_str(), &f); ex.op(); ex.compared(); if (st) { if (!rc) { if (!cb_c1(f, cb_inc(nspB), &r)) { cb_dec(r); if (st==1) ex.fail("%s\n  is no program, but gives a result", src.c_str()); } cb_dec(f); } continue; }
      if (rc) ex.fail("%s\n  fails: %s", src.c_str(), cb_err()); Pair q(ex, p); q.hist = "   # "+src; Machine& m = q.m; SP sc = std::make_shared<Sc>(); sc->bl = &nspP.bl[0]; sc->bo = &nspP.bo[0]; Val arrow = m.fun(Fn{O_PRIM, "⋈"}); sc->v = {Val(3), arrow}; sc->st = {1, 1}; Val ns = m.fun(Fn{O_NS, "", sc}); q.v = m.start(); q.b = f;
      Outcome o = outcomeOf([&]() { return m.call(q.v, nullptr, ns); }); if (o.unspec) continue; for (int k = 0; k < 3; k++) { rc = cb_c1(f, cb_inc(nspB), &r); ex.op(); if (rc!=o.err) ex.fail("%s called on a namespace with fields b and c\n  %s%s", src.c_str(), rc? "fails: " : "gives a result, expected an error", rc? cb_err() : ""); if (!rc) { q.compare(r, o.v, 1); cb_dec(r); } } }
    if (!left) return; for (auto& e : A) { t.push_back(e); rec(left-1); t.pop_back(); } };
  rec(max-3); ex.tick(); static int gcs; if (++gcs%8==0) cb_gctop();
}
// --- characters
static bool dig(const string& c) { return c.size()==1 && isdigit(c[0]); } static bool let(const string& c) { return c.size()==1 && isalpha(c[0]); }
static vector<Tok> lex(const vector<string>& c) {
  vector<Tok> r; size_t n = c.size(), i = 0; auto at = [&](size_t k) { return k<n? c[k] : string(); }; auto word = [&](const string& s) { return dig(s) || let(s) || s=="∞" || s=="π"; };
  while (i<n) { const string& k = c[i];
    if (k==" ") i++;
    else if (k=="#") { while (i<n && c[i]!="\n") i++; r.push_back(pun("⋄")); if (i<n) i++; }
    else if (dig(k) || k=="¯") { bool neg = k=="¯"; if (neg) { i++; if (!dig(at(i))) { if (at(i)=="∞" || at(i)=="π" || at(i)==".") throw Unclear(); throw Bad(); } } string d; while (dig(at(i))) d+= c[i++]; if (word(at(i)) || at(i)==".") throw Unclear(); double v = strtod(d.c_str(), nullptr); r.push_back(sub((neg? "¯" : "")+d, Val(neg? -v : v))); }
    else if (k=="∞" || k=="π") { i++; if (word(at(i)) || at(i)==".") throw Unclear(); r.push_back(sub(k, Val(k=="∞"? INFINITY : 3.141592653589793))); }
    else if (k=="@") { i++; r.push_back(sub("@", Val::chr(0))); }
    else if (k=="\"") { size_t j = i+1; string v; while (j<n && c[j]!="\"") v+= c[j++]; if (j>=n) throw Bad(); if (at(j+1)=="\"") throw Unclear(); r.push_back(sub(v, Val::str(v.c_str()))); i = j+1; }
    else if (k=="'") { if (i+2>=n || c[i+2]!="'") throw Bad(); if (c[i+1]=="\n") throw Unclear(); r.push_back(sub("'", Val::str(c[i+1].c_str()).it()[0])); i+= 3; }
    else if (let(k)) { string d; while (dig(at(i)) || let(at(i))) d+= c[i++]; if (word(at(i)) || (at(i)=="." && dig(at(i+1)))) throw Unclear(); r.push_back(nm(d)); }
    else if (k=="." && (dig(at(i+1)) || at(i+1)=="∞" || at(i+1)=="π")) throw Unclear();
    else if (k=="•") throw Bad();
    else if (k=="+" || k=="⋈") { r.push_back(prim(k, 0)); i++; } else if (k=="˜") { r.push_back(prim(k, 1)); i++; }
    else { r.push_back(pun(k)); i++; } }
  return r;
}
static void characters(Ex& ex, const vector<string>& A, int max) {
  vector<string> t; int n = A.size(); for (int k = 0; k < 2; k++) { int c = ex.pick(n+1); if (c==n) break; t.push_back(A[c]); } static const vector<Val> none = {Val(1)};
  std::function<void(int)> rec = [&](int left) { string s; for (auto& c : t) s+= c; vector<Tok> u; bool bad = false, unc = false; try { u = lex(t); } catch (Bad&) { bad = true; } catch (Unclear&) { unc = true; } if (bad) u = {pun(")")}; if (unc) { BV r; if (!cb_eval(s.c_str(), &r)) cb_dec(r); ex.op(); } else tryOne(ex, u, s, false, none, none); if (!left) return; for (auto& e : A) { t.push_back(e); rec(left-1); t.pop_back(); } };
  rec(t.size()==2? max-2 : 0); ex.tick(); static int gcs; if (++gcs%8==0) cb_gctop();
}
static void literals(Ex& ex) { // numbers, strings and characters
  int blk = ex.pick(272); auto same1 = [&](const string& s, const Val& v) { BV r; ex.op(); ex.compared(); if (cb_eval(s.c_str(), &r)) ex.fail("%s\n  fails: %s", s.c_str(), cb_err()); if (!same(r, v)) ex.fail("%s\n  gives %s\n  expected %s", s.c_str(), show(fromB(r)).c_str(), show(v).c_str()); cb_dec(r); };
  for (int k = 0; k < 4096; k++) { int c = blk*4096+k; if (c>0x10ffff || (c>=0xd800 && c<0xe000) || c==0 ) continue; string u; if (c<0x80) u = string(1, c); else if (c<0x800) u = {(char)(0xc0|c>>6), (char)(0x80|(c&63))}; else if (c<0x10000) u = {(char)(0xe0|c>>12), (char)(0x80|(c>>6&63)), (char)(0x80|(c&63))}; else u = {(char)(0xf0|c>>18), (char)(0x80|(c>>12&63)), (char)(0x80|(c>>6&63)), (char)(0x80|(c&63))};
    Val ch = Val::chr(c); same1("'"+u+"'", ch); if (c!='"') { same1("\"a"+u+"\"", Val::vec({Val::chr('a'), ch})); if (blk<4 || k%16==0) same1("⟨\""+u+"a\", 1⟩#"+u, Val::vec({Val::vec({ch, Val::chr('a')}), Val(1)})); }
    if (k%256==0) ex.tick(); }
  for (int k = 0; k < 150; k++) { long v = (long)blk*150+k; same1(strf("%ld", v), Val((double)v)); same1(strf("¯%ld", v), Val(v? -(double)v : -0.0)); same1(strf("00%ld", v), Val((double)v)); if (k%16==0) for (int e = 0; e < 45; e++) for (long d = -1; d <= 1; d++) { long q = v+(1l<<e)+d; if (q<0) continue; same1(strf("%ld-0", q), Val((double)q)); } if (k==0) { for (int e = 1; e <= 15; e++) { double q = pow(10, e); same1(strf("%.0f", q-blk), Val(q-blk)); } for (long d = 0; d < 64; d++) { long q = (1l<<53)-blk*64-d; same1(strf("%ld", q), Val((double)q)); } } ex.tick(); }
  cb_gctop();
}
struct Family { int a; bool fn; int quick, thorough; };
static void family(Ex& ex, const Family& f) {
  auto& A = alphabet(f.a); int n = A.size(), max = ex.thorough? f.thorough : f.quick, head = std::min(max, 3); vector<Tok> t;
  for (int k = 0; k < head; k++) { int c = ex.pick(n+1); if (c==n) break; t.push_back(A[c]); }
  static const vector<Val> xs = {Val(5), numsV({8, 9})}, ws = {Val(7), Val::str("w")};
  std::function<void(int)> rec = [&](int left) { string s = join(t); tryOne(ex, t, f.fn? "{"+s+"}" : s, f.fn, xs, ws); if (f.fn && s.find("⋄")!=string::npos) { string u; for (size_t i = 0; i < s.size(); ) { if (!s.compare(i, 3, "⋄")) { u+= "# \")}\n"; i+= 3; } else u+= s[i++]; } tryOne(ex, t, "{"+u+"}", true, xs, ws); } /* (a comment is a separator too) */ if (!left) return; for (auto& e : A) { t.push_back(e); rec(left-1); t.pop_back(); } };
  rec((int)t.size()==head? max-head : 0); ex.tick(); static int gcs; if (++gcs%8==0) cb_gctop();
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C22"; c.assumptions = {"the compiler built in is the native one, which covers part of the language; what it rejects although it is a program is limited to chained function assignments"};
  c.init = []() { cb_init(); BV r; if (!cb_eval("1", &r)) cb_dec(r); makeNsp(); cb_gc(); };
  static const Family F[] = {{0, false, 5, 6}, {1, true, 5, 6}, {2, false, 9, 11}, {3, false, 7, 8}, {4, false, 7, 8}, {5, false, 7, 8}, {6, true, 6, 7}, {7, true, 6, 7}, {8, true, 6, 7}, {9, false, 6, 7}};
  static const char* T[] = {"tokens", "block-tokens", "modifiers", "brackets", "assignment", "trains", "nothing", "block-assignment", "nothing-in-lists", "trains-of-constants"};
  for (int k = 0; k < 10; k++) c.sc.push_back({T[k], 3, [k](Ex& ex) { family(ex, F[k]); }, 3, strf("every string of up to %d (%d) of %d tokens", F[k].quick, F[k].thorough, (int)alphabet(F[k].a).size())});
  c.sc.push_back({"fields", 2, fields, 3, "every string of up to 5 (6) of 14 tokens called on a namespace"});
  static const vector<string> C1 = {"1", "0", "¯", "a", "B", ".", "\"", "'", "#", "\n", " ", "+", ",", "(", ")", "←"}, C2 = {"1", "a", "A", "←", "⋄", "#", "\n", "@", "∞", "π", "•", "⋈", "˜", "⟨", "⟩", "\"", "é"}, C3 = {"'", "\"", "a", "𝔽", "#", "\n", " "};
  c.sc.push_back({"characters", 2, [](Ex& ex) { characters(ex, C1, ex.thorough? 6 : 5); }, 3, "every string of up to 5 (6) of 16 characters"});
  c.sc.push_back({"more-characters", 2, [](Ex& ex) { characters(ex, C2, ex.thorough? 6 : 5); }, 3, "every string of up to 5 (6) of 17 characters"});
  c.sc.push_back({"quotes", 2, [](Ex& ex) { characters(ex, C3, ex.thorough? 8 : 7); }, 3, "every string of up to 7 (8) of 7 characters"});
  c.sc.push_back({"literals", 1, literals, 3, "every Unicode character in character and string literals, numbers up to 40800 and around every power of two up to 2⋆53"});
  std::rotate(c.sc.begin(), c.sc.end()-1, c.sc.end());
  return mainMC(argc, argv, c);
}
