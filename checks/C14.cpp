// Programs on the bytecode VM, interpreted and compiled to machine code, against the reference evaluator of lib/vm.hpp.
#include "vm.hpp"
using namespace bq; using namespace bq::vm;
static const Val L12 = numsV({1, 2});
static N X() { return V(0, 1); } static N W() { return V(0, 2); } static N S() { return V(0, 0); }
static N A() { return V(0, 3); } static N B() { return V(0, 4); }
static N num(double d) { return C(Val(d)); }
static Body body(int vars, vector<N> st) { Body b; b.vars = vars; b.st = st; return b; }
static Body space(vector<string> names, vector<int> exp, vector<N> st) { Body b; b.vars = names.size(); b.names = names; b.exported.assign(names.size(), 0); for (int e : exp) b.exported[e] = 1; b.st = st; b.ns = true; return b; }
static void go(Ex& ex, const Prog& p, const vector<Val>& xs, const vector<Val>& ws, int rounds = 2, int depth = 2) { Pair q(ex, p); if (q.load() && !q.dead) q.exercise(xs, ws, rounds, depth); ex.tick(); }

// --- statements: block 0 {c←⟨1,2⟩ ⋄ {a←𝕩 ⋄ b←⟨a,2⟩ ⋄ … ⋄ ⟨a,b,c,𝕩⟩}}
static vector<N> stmts(Prog& p) { // may add blocks to p
  auto blk = [&](Body b) { p.bo.push_back(b); p.bl.push_back(fnBlock(p.bo.size()-1)); return p.bl.size()-1; };
  int inner = blk(body(0, {C2(P("⋈"), X(), V(1, 4))})), setter = blk(body(0, {Set(TV(1, 3), L({V(1, 3), X()})), X()})), outer = blk(body(0, {Mod(TV(2, 0), P("⋈"), X()), V(1, 3)})); (void)setter; (void)outer; (void)inner;
  N c = V(1, 0); N ta = TV(0, 3), tb = TV(0, 4), tc = TV(1, 0);
  return {Set(ta, num(3)), Set(ta, B()), Set(tb, C2(P("⋈"), A(), B())), Call(ta, P("⋈")), Mod(ta, P("⋈"), B()), Mod(tb, P("∾"), L({A(), A()})), Call(tb, P("⌽")), Set(tc, A()), Mod(tc, P("⋈"), X()), Set(TL({ta, tb}), L({B(), A()})), Call(TL({ta, tb}), P("⌽")), Mod(TL({tb, ta}), P("⋈"), num(7)),
          Set(TM({ta, tb}), C2(P("⋈"), L({A(), num(1)}), L({num(2), B()}))), Set(ta, C1(Bl(inner), A())), Set(tb, C1(Bl(setter), A())), Set(tb, C1(Bl(outer), A())), Set(ta, C2(P("⋈"), Set(tb, num(5)), C1(P("⋈"), B()))), Set(ta, C2(P("⋈"), B(), Set(tb, num(6)))), Set(TV(0, 1), L({X(), X()})), Set(ta, C2(P("⋈"), W(), X())), Set(ta, W()), Set(ta, C1(P("⋈"), W())),
          Set(tb, C2(P("⊣"), W(), A())), C1(P("!"), num(0)), Set(ta, C1(P("⊑"), B())), Set(ta, L({VU(0, 4), A()})), Set(tb, L({A(), VU(0, 3)})), Set(TV(0, 2), A()), Mod(ta, C2(P("⊢"), num(1), C1(P("⊑"), L({P("⋈"), num(4)}))), C1(P("⌽"), L({B(), A()}))), Set(ta, C1(M1(P("¨"), Bl(inner)), B())), Set(tb, C2(M1(P("˜"), P("⋈")), A(), X())),
          Mod(ta, P("+"), num(1)), Call(tb, Fork(P("⌽"), P("⋈"), P("⊑"))), Set(TN(), C1(P("⊑"), A())), Call(ta, C1(P("!"), num(0))), Set(ta, C2(M2(P("⎊"), P("⊑"), P("⊣")), num(1), B()))};
}
static size_t NST() { Prog p; return stmts(p).size(); }
static void statements(Ex& ex) {
  static const size_t n = NST(); int k = ex.thorough? 3 : 3; int s[4]; for (int i = 0; i < k; i++) s[i] = ex.pick(n);
  Prog p; p.bl = {immBlock(0), fnBlock(1)}; p.bo.resize(2); vector<N> all[3]; vector<N> st = {Def(TV(0, 3), X()), Def(TV(0, 4), L({A(), num(2)}))};
  for (int i = 0; i < k; i++) { Prog t; t.bl = p.bl; t.bo = p.bo; vector<N> al = stmts(t); // blocks only where they are used
    N u = al[s[i]]; std::function<N(const N&)> fix = [&](const N& a) -> N { if (a->k==K_BLOCK) { int id = a->d; p.bo.push_back(t.bo[t.bl[id].b[0][0]]); p.bl.push_back(fnBlock(p.bo.size()-1)); return Bl(p.bl.size()-1); } N r = std::make_shared<Node>(*a); for (auto& e : r->a) e = fix(e); return r; }; st.push_back(fix(u)); }
  st.push_back(L({V(0, 3), V(0, 4), V(1, 0), V(0, 1)})); p.bo[0] = body(1, {Def(TV(0, 0), C(L12)), Bl(1)}); p.bo[1] = body(2, st);
  go(ex, p, {Val(5), numsV({8, 9})}, {Val(7), Val::str("w")});
}
// --- expressions over constants, primitives, variables, blocks, and every way to derive functions
struct Pool { vector<N> e0, f0, f1, e1; };
static Prog exprBase() { Prog p; p.bo = {body(0, {}), body(2, {}), body(0, {C2(P("⋈"), X(), C2(P("⋈"), W(), num(9)))}), body(0, {C2(V(0, 4), W(), L({X(), S()}))}), body(0, {L({V(0, 1), V(0, 1)})}), body(0, {C2(V(0, 1), V(0, 2), num(1))})};
  p.bo[3] = body(0, {C2(V(0, 4), W(), L({X(), num(0)}))}); p.bo.push_back(body(0, {Fork(V(0, 4), P("⋈"), V(0, 5))})); p.bo.push_back(body(0, {C2(P("⋈"), V(0, 1), V(0, 2))}));
  p.bl = {immBlock(0), fnBlock(1), fnBlock(2), fnBlock(3, 1), immBlock(4, 1), fnBlock(5+1, 2), immBlock(7, 2)}; p.bo[0] = body(0, {Bl(1)}); return p; }
// bodies: 2 {𝕩⋈𝕨⋈9}  3 md1 {𝕨𝔽⟨𝕩,0⟩}  4 immediate md1 {⟨𝕗,𝕗⟩}  6 md2 {(𝔽⋈𝔾)} as a function  7 immediate md2 {𝕗⋈𝕘}
static Pool pool() {
  Pool q; q.e0 = {num(3), C(L12), A(), X(), W()}; q.f0 = {P("+"), P("⋈"), B(), num(4), Bl(2)};
  for (auto& f : q.f0) { for (auto& g : q.f0) { q.f1.push_back(Atop(f, g)); for (auto m : {"∘", "⊸", "⟜", "⎊"}) q.f1.push_back(M2(P(m), f, g)); q.f1.push_back(M2(Bl(5), f, g)); q.f1.push_back(M2(Bl(6), f, g)); q.f1.push_back(Fork(W(), f, g)); for (auto& h : q.f0) q.f1.push_back(Fork(f, g, h)); } for (auto m : {"˜", "¨", "˙"}) q.f1.push_back(M1(P(m), f)); q.f1.push_back(M1(Bl(3), f)); q.f1.push_back(M1(Bl(4), f)); }
  return q;
}
static bool twice(const N& n, std::set<int>& seen) { if (n->k==K_BLOCK && !seen.insert(n->d).second) return true; for (auto& a : n->a) if (twice(a, seen)) return true; return false; }
static N fresh(Prog& p, const N& n, std::set<int>& used) { N r = std::make_shared<Node>(*n); if (n->k==K_BLOCK) { if (!used.insert(n->d).second) { Block b = p.bl[n->d]; p.bo.push_back(p.bo[b.b[0][0]]); b.b[0] = b.b[1] = {(int)p.bo.size()-1}; p.bl.push_back(b); r->d = p.bl.size()-1; } return r; } for (auto& a : r->a) a = fresh(p, a, used); return r; }
static void runExpr(Ex& ex, const N& e, bool fn, int how) {
  Prog p = exprBase(); std::set<int> used; N q = fresh(p, e, used); vector<N> st = {Def(TV(0, 3), L({X(), num(6)})), Def(TV(0, 4), P("⊣"))};
  if (how==1) { st.push_back(C1(P("⋈"), num(1))); st.push_back(L({q, A()})); } else if (how==2) { st.push_back(C2(P("⋈"), A(), Set(TV(0, 3), q))); st.back() = L({st.back(), A()}); } else st.push_back(q);
  p.bo[1] = body(2, st); // unused blocks stay in the program, as they do in the compiler's output only when they are used: drop them
  vector<int> map(p.bl.size(), -1); Prog z; std::function<void(int)> keep = [&](int id) { if (map[id]>=0) return; map[id] = z.bl.size(); z.bl.push_back(p.bl[id]); }; keep(0); keep(1); std::function<void(const N&)> walk = [&](const N& n) { if (n->k==K_BLOCK) keep(n->d); for (auto& a : n->a) walk(a); }; for (auto& s : st) walk(s);
  std::function<N(const N&)> re = [&](const N& n) -> N { N r = std::make_shared<Node>(*n); if (r->k==K_BLOCK) r->d = map[r->d]; for (auto& a : r->a) a = re(a); return r; };
  for (auto& b : z.bl) { Body o = p.bo[b.b[0][0]]; for (auto& s : o.st) s = re(s); z.bo.push_back(o); b.b[0] = b.b[1] = {(int)z.bo.size()-1}; }
  (void)fn; go(ex, z, {Val(5), numsV({8, 9})}, {Val(7), numsV({1, 0})}, 2, 2);
}
static void derived(Ex& ex) { // every derived function as a result and called
  static Pool q = pool(); size_t i = ex.pick(q.f1.size()); const N& f = q.f1[i]; int how = ex.pick(3); runExpr(ex, f, true, how);
  for (auto& x : q.e0) { runExpr(ex, C1(f, x), false, how); for (auto& w : q.e0) if (ex.thorough || how==0) runExpr(ex, C2(f, w, x), false, how); }
}
static void nestedExpr(Ex& ex) { // calls, lists and assignments within calls and lists, on either side
  static Pool q = pool(); const N& f = ex.of(q.f0); const N& x = ex.of(q.e0); int form = ex.pick(8); N e; const N& y = ex.of(q.e0);
  switch (form) { case 0: e = C1(f, x); break; case 1: e = C2(f, y, x); break; case 2: e = L({x, y}); break; case 3: e = L({f, y, x}); break; case 4: e = Set(TV(0, 3), x); break; case 5: e = M({x, y}); break; case 6: e = Mod(TV(0, 3), f, x); break; default: e = Call(TV(0, 3), f); }
  for (auto& g : q.f0) { for (auto& z : q.e0) { runExpr(ex, C2(g, e, z), false, 0); runExpr(ex, C2(g, z, e), false, 0); runExpr(ex, L({z, e, A()}), false, 0); runExpr(ex, L({A(), e, e}), false, 0); if (ex.thorough) for (auto& h : q.f0) { runExpr(ex, C1(h, C2(g, e, z)), false, 0); runExpr(ex, C2(h, C2(g, z, e), A()), false, 1); } } runExpr(ex, C1(g, e), false, 2); runExpr(ex, C1(M1(P("˜"), g), e), false, 0); }
}
// --- closures: three functions nested, each with a variable, reading and changing variables of every depth
static void closures(Ex& ex) {
  // block 1 (called with 𝕩) returns block 2; block 2 called returns block 3; block 3 called returns a list of what it sees
  auto act = [&](int level) -> vector<N> { // level: how many scopes with a variable are outside (program level is 0)
    vector<N> v = {num(0)}; for (int d = 0; d <= level; d++) { int pos = d==level? 0 : 3; v.push_back(Mod(TV(d, pos), P("⋈"), X())); v.push_back(Set(TV(d, pos), X())); if (d) v.push_back(Set(TV(d, pos), L({V(0, 3), V(d, pos)}))); } return v; };
  Prog p; p.bo.push_back(body(1, {Def(TV(0, 0), num(100)), Bl(1)})); p.bl = {immBlock(0), fnBlock(1), fnBlock(2), fnBlock(3)};
  vector<N> a1 = act(1), a2 = act(2), a3 = act(3); N s1 = ex.of(a1), s2 = ex.of(a2), s3 = ex.of(a3); int pos = ex.pick(3); // where the inner function is created: last, kept in a variable first, in a list with another
  auto mk3 = [&](N inner, N s, int var) -> Body { if (pos==0) return body(1, {Def(TV(0, 3), C2(P("⋈"), num(var), X())), s, inner}); if (pos==1) return body(2, {Def(TV(0, 4), inner), Def(TV(0, 3), num(var)), s, V(0, 4)}); return body(2, {Def(TV(0, 4), inner), Def(TV(0, 3), X()), s, L({V(0, 4), V(0, 3)})}); };
  p.bo.push_back(mk3(Bl(2), s1, 10)); p.bo.push_back(mk3(Bl(3), s2, 20)); p.bo.push_back(body(1, {Def(TV(0, 3), X()), s3, L({V(0, 3), V(1, 3), V(2, 3), V(3, 0)})}));
  Pair q(ex, p); if (!q.load()) return; vector<std::pair<BV, Val>> held = {{cb_inc(q.b), q.v}}; // call the functions in turns; earlier ones go on existing
  for (int k = 0; k < 14 && !q.dead; k++) { size_t i = k<4? 0 : k%held.size(); Val x(k); auto f = held[i]; if (q.m.kindOf(f.second)!=0 || !Machine::isFn(f.second)) continue; BV r; Val e; if (!q.call(f.first, f.second, nullptr, x, 0, &r, &e)) continue; if (held.size()<7) { if (e.isArr()) { for (size_t j = 0; j < e.ia(); j++) if (Machine::isFn(e.it()[j])) held.push_back({cb_inc(cb_item(r, j)), e.it()[j]}); cb_dec(r); } else held.push_back({r, e}); } else cb_dec(r); }
  for (auto& h : held) cb_dec(h.first); ex.tick();
}
// --- destructuring
static vector<N> targets(int depth, int& v, int max) { (void)depth; (void)v; (void)max; return {}; }
static void destructure(Ex& ex) {
  // shape of the target: a tree of lists and merges over variables and · ; value shapes alike
  int nv = 0; std::function<N(int)> tgt = [&](int d) -> N { int k = ex.pick(d? 7 : 2); if (k==6) return TM({}); if (k==0 && nv<3) return TV(0, 3+nv++); if (k<=1) return TN(); if (k==2) return TL({}); int n = k==3? 1 : 2; vector<N> a; for (int i = 0; i < n; i++) a.push_back(tgt(d-1)); return k==5? TM(a) : TL(a); };
  N t = tgt(2); int op = ex.pick(3); static const vector<Val> X0 = {Val(1), Val::chr('x'), Val::vec({}), numsV({1}), numsV({1, 300}), Val::str("ab"), Val::vec({Val::str("p"), numsV({3, 4})}), Val::vec({numsV({5, 6}), Val::chr('q')}), Val::arr({2,2}, {1, 2, 3, 4}), Val::arr({2,1}, {Val(7), Val::str("u")}), Val::arr({1,2}, {8, 9}), unitOf(Val(3)), Val::arr({2,0}, {}), Val::vec({Val::vec({Val::vec({Val(1), Val(2)}), Val(3)}), Val::vec({Val(4)})}), Val::vec({Val::arr({2,1}, {1, 2}), Val::vec({})}), Val::arr({2}, {unitOf(Val(1)), Val(2)}), Val::arr({1,1,2}, {1, 2})};
  Prog p; p.bl = {immBlock(0), fnBlock(1)}; vector<N> st; if (op==1) for (int i = 0; i < 3; i++) st.push_back(Def(TV(0, 3+i), num(50+i))); if (op==2) { st.push_back(Hdr(t, X())); p.bl[1].simple = false; p.bl[1].b[0] = {1, 2}; p.bl[1].b[1] = {1}; } else st.push_back(op? Set(t, X()) : Def(t, X()));
  vector<N> out; for (int i = 0; i < (op==1? 3 : nv); i++) out.push_back(V(0, 3+i)); out.push_back(op==0? num(0) : X()); st.push_back(L(out)); p.bo = {body(0, {Bl(1)}), body(3, st), body(0, {L({C(Val::str("other")), X()})})};
  if (op==1) { } Pair q(ex, p); if (!q.load()) return;
  for (auto& x : X0) for (auto& r : repsOf(x, 1)) { q.call(q.b, q.v, nullptr, x, 1, nullptr, nullptr, {}, r); if (x.ia()==1) q.call(q.b, q.v, &X0[0], x, 1, nullptr, nullptr, {}, r); }
  ex.tick();
}
static void destructureMod(Ex& ex) { // ⟨…⟩ F↩ and its undefined halves
  static const vector<N> T = {TV(0, 3), TL({TV(0, 3)}), TL({TV(0, 3), TV(0, 4)}), TL({TV(0, 4), TL({TV(0, 3)})}), TM({TV(0, 3), TV(0, 4)}), TM({TV(0, 5)}), TL({TM({TV(0, 4), TV(0, 3)}), TV(0, 5)}), TL({}), TL({TV(1, 0), TV(0, 3)}), TM({TV(1, 0), TV(0, 4)})};
  N t = ex.of(T); static const vector<const char*> FN = {"⌽", "⋈", "⊢", "⊣", "+", "∾", "⊑", "<", "-"}; const char* f = ex.of(FN); int dy = ex.pick(2), init = ex.pick(4), keep = ex.pick(2);
  static const vector<vector<Val>> I = {{1, 2, 3}, {numsV({1, 2}), numsV({3, 4}), numsV({5, 6})}, {Val::str("ab"), numsV({3}), Val(5)}, {numsV({1, 2, 300}), numsV({4, 5, 6}), Val::str("xyz")}}; auto& in = I[init];
  Prog p; p.bl = {immBlock(0), fnBlock(1)}; vector<N> st; for (int i = 0; i < 3; i++) st.push_back(Def(TV(0, 3+i), keep? L({X(), C(in[i])}) : C(in[i]))); if (keep) for (int i = 0; i < 3; i++) st.push_back(Set(TV(0, 3+i), C2(P("⊑"), num(1), V(0, 3+i))));
  st.push_back(Def(TV(0, 6), L({V(0, 3), V(0, 4), V(0, 5)}))); N m = dy? Mod(t, P(f), X()) : Call(t, P(f)); st.push_back(Def(TV(0, 7), C1(M2(P("⎊"), P("⊢"), P("⊢")), num(0)))); st.push_back(m); st.push_back(L({V(0, 3), V(0, 4), V(0, 5), V(1, 0), V(0, 6)})); p.bo = {body(1, {Def(TV(0, 0), C(numsV({70, 71}))), Bl(1)}), body(5, st)};
  go(ex, p, {Val(5), numsV({8, 9})}, {Val(7)}, 3);
}
// --- several bodies, headers, predicates, valences, inverses
static N pat(int k) { switch (k) { case 0: return TV(0, 3); case 1: return TC(Val(3)); case 2: return TL({TV(0, 3), TV(0, 4)}); case 3: return TL({TC(Val(1)), TV(0, 3)}); case 4: return TM({TV(0, 3), TV(0, 4)}); case 5: return TN(); case 6: return TC(Val::str("ab")); default: return TL({TL({TV(0, 4)}), TC(Val::chr('c'))}); } }
static N patAt(int k, int off) { N t = pat(k); std::function<N(const N&)> f = [&](const N& n) -> N { N r = std::make_shared<Node>(*n); if (r->k==T_VAR) r->p+= off; for (auto& a : r->a) a = f(a); return r; }; return f(t); }
static const vector<Val>& headArgs() { static const vector<Val> v = {Val(3), Val(4), numsV({1, 2}), numsV({5, 6}), Val::str("ab"), Val::vec({numsV({9}), Val::chr('c')}), Val::arr({2,2}, {1, 2, 3, 4}), Val::vec({}), Val::vec({Val(1), Val::str("z")})}; return v; }
static vector<int> definesOf(int k) { switch (k) { case 0: case 3: return {3}; case 2: case 4: return {3, 4}; case 7: return {4}; default: return {}; } }
static void bodies(Ex& ex) { // blocks of three bodies over both valences, with headers and predicates
  int ty = ex.pick(3), nb = 2+ex.pick(2); int g = 3+ty+(ty>0); Prog p; Block b; b.ty = ty; b.simple = false; p.bo.push_back(body(0, {})); p.bl.push_back(immBlock(0));
  for (int i = 0; i < nb; i++) { int val = ex.pick(3); int k = i==2? (i*3+val)%8 : ex.pick(8); int pr = i==1 || ex.thorough? ex.pick(3) : 0; int id = p.bo.size(); vector<N> st; st.push_back(Hdr(patAt(k, g-3), X())); if (val==1 && k!=0) st.push_back(Hdr(TV(0, g+2), W()));
    if (pr==1) st.push_back(Pred(C2(P("≡"), X(), C(numsV({1, 2}))))); if (pr==2) { st.push_back(Set(TV(0, 1), L({X(), X()}))); st.push_back(Pred(C2(P("≢"), num(2), num(2)))); st.back() = Pred(C2(P("≡"), C1(P("⊑"), X()), num(4))); }
    vector<N> out = {num(i), X()}; for (int v : definesOf(k)) out.push_back(V(0, v+g-3)); if (ty) out.push_back(V(0, 4)); if (ty==2) out.push_back(V(0, 5)); st.push_back(L(out)); p.bo.push_back(body(3, st)); if (val!=1) b.b[0].push_back(id); if (val!=0) b.b[1].push_back(id); }
  p.bl.push_back(b); p.bo[0] = ty==0? body(0, {Bl(1)}) : ty==1? body(0, {M1(Bl(1), num(77))}) : body(0, {M2(Bl(1), num(77), P("⋈"))});
  if (ty==2) { } go(ex, p, headArgs(), headArgs(), 2);
}
static void immediate(Ex& ex) { // immediate blocks with predicates: several bodies, of the niladic block and both modifiers
  int ty = ex.pick(3), nb = 1+ex.pick(3); Prog p; Block b; b.ty = ty; b.imm = true; b.simple = false; p.bl = {immBlock(0), fnBlock(1)}; p.bo = {body(1, {Def(TV(0, 0), num(0)), Bl(1)}), body(0, {})}; int g = given(b);
  for (int i = 0; i < nb; i++) { int pr = ex.pick(4); vector<N> st = {Def(TV(0, g), ty? V(0, 1) : V(1, 1)), Mod(TV(2, 0), P("+"), num(1))}; if (ty && ex.pick(2)) st.insert(st.begin(), Set(TV(0, 1), L({V(0, 1), num(2)}))); if (pr==1) st.push_back(Pred(C2(P("≡"), V(0, g), num(5)))); if (pr==2) st.push_back(Pred(C2(P("≡"), V(1, 1), C(numsV({8, 9}))))); if (pr==3) st.push_back(Pred(num(2)));
    vector<N> out = {num(i), V(0, g), V(2, 0)}; if (ty) { out.push_back(V(0, 1)); } if (ty==2) out.push_back(V(0, 2)); st.push_back(L(out)); b.b[0].push_back(p.bo.size()); p.bo.push_back(body(1, st)); }
  b.b[1] = {}; b.simple = false; p.bl.push_back(b); N u = ty==0? Bl(2) : ty==1? M1(Bl(2), X()) : M2(Bl(2), X(), W()); p.bo[1].st = {L({u, X()})}; go(ex, p, {Val(5), numsV({8, 9}), Val::chr('a')}, {Val(7), Val(1)}, 3);
}
static void inverses(Ex& ex) { // ⁼ headers of functions and modifiers
  int ty = ex.pick(3), have = ex.pick(32); if (!have) return; Prog p; Block b; b.ty = ty; b.simple = false; p.bl = {immBlock(0)}; p.bo = {body(0, {})};
  for (int i = 0; i < 5; i++) if (have>>i&1) { int id = p.bo.size(); vector<N> out = {num(i), X()}; if (i==1 || i>2) out.push_back(W()); if (ty) out.push_back(V(0, 4)); if (ty==2) out.push_back(V(0, 5)); vector<N> st; if (ex.pick(2)) { st.push_back(Hdr(TL({TV(0, 3+ty+(ty>0)), TN()}), X())); b.b[i].push_back(id); p.bo.push_back(body(1, {st[0], L({num(40+i), V(0, 3+ty+(ty>0))})})); id++; } b.b[i].push_back(id); p.bo.push_back(body(1, {L(out)})); }
  p.bl.push_back(b); N f = ty==0? Bl(1) : ty==1? M1(Bl(1), num(77)) : M2(Bl(1), num(77), num(78)); int w = ex.pick(4); N t = w==0? f : w==1? M1(P("⁼"), f) : w==2? M1(P("⁼"), M1(P("˜"), f)) : M1(P("⁼"), M1(P("⁼"), f)); p.bo[0].st = {t}; if (w==3) return;
  go(ex, p, {Val(5), numsV({8, 9}), Val::chr('a')}, {Val(7), Val(1), numsV({4, 4})}, 2, 1);
}
static void modifiers(Ex& ex) { // operands, 𝕣 and 𝕤 in deferred modifiers; recursion through them
  int ty = 1+ex.pick(2); vector<N> F = {num(6), P("⋈"), Bl(3), Atop(P("⋈"), P("⊣")), X()}; N f = ex.of(F), g = ty==2? ex.of(F) : nullptr; int use = ex.pick(8);
  N op = V(0, 4), o2 = ty==2? V(0, 5) : V(0, 4); vector<N> st; switch (use) { case 0: st = {C2(op, W(), X())}; break; case 1: st = {L({op, C1(o2, X())})}; break; case 2: st = {Def(TV(0, 4+ty), ty==1? M1(V(0, 3), o2) : M2(V(0, 3), o2, op)), L({C1(P("⋈"), X()), V(0, 4+ty)})}; break; case 3: st = {C2(Fork(op, P("⋈"), o2), W(), X())}; break;
    case 4: st = {Set(TV(0, 4), L({X(), X()})), C2(V(0, 4), W(), o2)}; break; case 5: st = {Bl(4)}; break; case 6: st = {C1(M2(P("∘"), op, o2), X())}; break; default: st = {C2(M1(P("˜"), op), X(), C1(M1(P("¨"), o2), L({X(), num(2)})))}; }
  Prog p; p.bl = {immBlock(0), fnBlock(1), fnBlock(2, ty), fnBlock(3)}; bool u3 = false; std::function<void(const N&)> see = [&](const N& n) { if (n && n->k==K_BLOCK && n->d==3) u3 = true; if (n) for (auto& a : n->a) see(a); }; see(f); see(g);
  bool both = g && f->k==K_BLOCK && g->k==K_BLOCK; if (both) { p.bl.push_back(fnBlock(4)); g = Bl(4); } N m = Bl(2); p.bo = {body(0, {Bl(1)}), body(1, {Def(TV(0, 3), ty==1? M1(m, f) : M2(m, f, g)), L({C2(V(0, 3), W(), X()), C1(V(0, 3), num(2)), V(0, 3)})}), body(1, st), body(0, {L({num(33), X(), W()})}), body(0, {L({num(34), X()})})}; p.bo[3] = body(0, {L({num(33), C2(P("⋈"), W(), X())})}); p.bl[3] = fnBlock(3);
  if (both) p.bl[4] = fnBlock(4);
  if (use==5) { int id = p.bl.size(); p.bo.push_back(body(0, {C2(V(1, 4), W(), L({X(), V(1, 1)}))})); p.bl.push_back(fnBlock(p.bo.size()-1)); p.bo[2].st = {Bl(id)}; }
  go(ex, p, {Val(5), numsV({8, 9})}, {Val(7), Val(1)}, 3, 1);
}
// --- namespaces
static void namespaces(Ex& ex) {
  int exp = ex.pick(8), use = ex.pick(15), late = ex.pick(2), kind = ex.pick(2); // fields x, y, Get; block 2 is the namespace
  vector<int> e; for (int i = 0; i < 3; i++) if (exp>>i&1) e.push_back(i); Prog p; p.bl = {immBlock(0), fnBlock(1), kind? fnBlock(2) : immBlock(2), fnBlock(3)}; int g = kind? 3 : 0;
  N mod = Mod(TV(1, g), P("⋈"), X()); Body ns = space({"x", "y", "get"}, e, {Def(TV(0, g), late? num(1) : L({num(1), kind? X() : V(1, 1)})), Def(TV(0, g+1), L({V(0, g), num(2)})), Def(TV(0, g+2), Bl(3))}); if (late) ns.st.push_back(Set(TV(0, g), L({V(0, g+1), num(9)})));
  N q = kind? C1(Bl(2), X()) : Bl(2); N n = V(0, 3); Body f; f.vars = 5; f.names = {"n", "x", "y", "z", "get"}; f.exported = {0, 0, 0, 0, 0}; f.st = {Def(TV(0, 3), q)}; auto& s = f.st; N tx = TV(0, 4), ty = TV(0, 5), tz = TV(0, 6);
  switch (use) { case 0: s.push_back(L({Fld(n, "x"), Fld(n, "y")})); break; case 1: s.push_back(n); break; case 2: s.push_back(Def(TL({tx, ty}), n)); s.push_back(L({V(0, 4), V(0, 5)})); break; case 3: s.push_back(Def(TL({TA("y", tz), tx}), n)); s.push_back(L({V(0, 6), V(0, 4)})); break;
    case 4: s.push_back(C1(Fld(n, "get"), num(5))); s.push_back(L({Fld(n, "x"), C1(Fld(n, "get"), num(6)), Fld(n, "x")})); break; case 5: s.push_back(Def(TL({TA("x", TL({tx, ty}))}), n)); s.push_back(L({V(0, 4), V(0, 5)})); break; case 6: s.push_back(Fld(n, "nope")); break; case 7: s.push_back(Fld(C2(P("⊑"), num(1), L({num(0), n})), "y")); break;
    case 8: s.push_back(Def(tx, num(1))); s.push_back(Def(ty, num(2))); s.push_back(Set(TL({ty, tx}), n)); s.push_back(L({V(0, 4), V(0, 5)})); break; case 9: s.push_back(Fld(X(), "x")); break; case 10: s.push_back(Def(TL({TA("get", TV(0, 7)), TN()}), n)); s.push_back(C1(V(0, 7), num(3))); break;
    case 12: s.push_back(Set(TL({ty, tx}), n)); s.push_back(L({V(0, 4), V(0, 5)})); break; case 13: s.push_back(Def(ty, num(2))); s.push_back(Set(TL({TA("y", ty), TA("x", tx)}), n)); s.push_back(V(0, 5)); break; case 14: s.push_back(Def(tx, num(1))); s.push_back(Set(TL({TL({TA("x", tx)}), TA("y", TL({tx, tz}))}), L({n, n}))); s.push_back(V(0, 4)); break;
    default: s.push_back(Def(tz, L({n, n}))); s.push_back(Def(TL({TL({TA("x", tx)}), TL({TA("get", TV(0, 7))})}), V(0, 6))); s.push_back(L({V(0, 4), C1(V(0, 7), num(8)), Fld(n, "x")})); }
  p.bo = {body(0, {Bl(1)}), f, ns, body(0, {mod, L({V(1, g), V(1, g+1)})})}; go(ex, p, {Val(5), numsV({8, 9})}, {Val(7)}, 3, 1);
}
static void nsHeaders(Ex& ex) { // namespaces as arguments matched by headers
  int exp = ex.pick(8), h = ex.pick(7); vector<int> e; for (int i = 0; i < 3; i++) if (exp>>i&1) e.push_back(i); Prog p; p.bl = {immBlock(0), fnBlock(1), fnBlock(2), immBlock(5)}; p.bl[2].simple = false; p.bl[2].b[0] = {2, 3, 4}; p.bl[2].b[1] = {3};
  N t = h==0? TL({TV(0, 3), TV(0, 4)}) : h==1? TL({TA("b", TV(0, 3))}) : h==2? TL({TA("a", TC(Val(1))), TA("c", TV(0, 3))}) : h==3? TL({TA("c", TL({TV(0, 3), TV(0, 4)}))}) : h==4? TA("a", TV(0, 3)) : h==5? TL({TA("b", TM({TV(0, 3), TV(0, 4)}))}) : TL({TV(0, 3), TN()});
  Body f; f.vars = 2; f.names = {"a", "b"}; f.exported = {0, 0}; f.st = {Hdr(t, X())}; vector<N> out = {num(1)}; if (h!=2 || true) out.push_back(V(0, 3)); if (h==0 || h==3 || h==5) out.push_back(V(0, 4)); f.st.push_back(L(out)); Body ns = space({"a", "b", "c"}, e, {Def(TV(0, 0), num(1)), Def(TV(0, 1), C(L12)), Def(TV(0, 2), L({V(0, 0), num(4)}))});
  p.bo = {body(0, {Bl(1)}), body(1, {Def(TV(0, 3), Bl(3)), Def(TN(), num(0)), L({C1(Bl(2), V(0, 3)), X()})}), f, body(1, {Hdr(TL({TV(0, 3), TN()}), X()), L({num(2), V(0, 3)})}), body(0, {L({num(3), X()})}), ns}; go(ex, p, {Val(5)}, {Val(7)}, 4, 1);
  Prog q = p; q.bo[1] = body(1, {C1(Bl(2), X())}); q.bl = {p.bl[0], p.bl[1], p.bl[2]}; q.bo.pop_back(); go(ex, q, {Val(5), numsV({8, 9}), numsV({1})}, {}, 3, 1);
}
// --- errors in the middle, caught further out: everything done before stays, the interpreter goes on as if nothing had happened
static void caught(Ex& ex) {
  int where = ex.pick(9), depth = 1+ex.pick(3), kind = ex.pick(6), again = ex.pick(2); Prog p; p.bl = {immBlock(0), fnBlock(1)}; // program: log←⟨⟩, f
  N bad = kind==0? C1(P("!"), num(0)) : kind==1? C2(P("⊑"), num(9), C(L12)) : kind==2? C2(P("+"), C(L12), C(numsV({1, 2, 3}))) : kind==3? V(0, 4) : kind==4? Set(TL({TV(0, 3), TV(0, 3)}), num(1)) : C2(V(0, 0), W(), C(Val::str("deep")));
  if (kind==5) bad = C1(M1(P("¨"), C1(P("!"), num(0))), C(L12));
  auto log = [&](int d, N x) { return Mod(TV(d, 0), P("⋈"), x); };
  N boom; switch (where) { case 0: boom = bad; break; case 1: boom = L({num(1), bad, log(depth, num(2))}); break; case 2: boom = C2(P("⋈"), log(depth, num(3)), bad); break; case 3: boom = C2(P("⋈"), bad, log(depth, num(4))); break; case 4: boom = Mod(TV(0, 3), P("⋈"), bad); break; case 5: boom = Call(TV(0, 3), M2(P("∘"), P("⋈"), C1(P("⊢"), M2(P("⊸"), C(Val(5)), P("!"))))); break; case 6: boom = Set(TL({TV(0, 3), TV(depth, 0)}), L({bad, num(1)})); break; case 7: boom = M({bad, L({num(1)})}); break; default: boom = C1(Fork(P("⊢"), bad, P("⋈")), num(3)); }
  // f calls depth-1 nested functions, the innermost fails; each level logs on both sides of the call
  p.bo = {body(1, {Def(TV(0, 0), C(Val::vec({}))), Bl(1)})}; int first = 1; p.bo.push_back(Body());
  for (int d = 1; d <= depth; d++) { int id = first+d-1; if (d>1) { p.bl.push_back(fnBlock(id)); p.bo.push_back(Body()); } }
  for (int d = 1; d <= depth; d++) { int id = d; vector<N> st = {Def(TV(0, 3), L({X(), num(d)})), log(d, num(10*d))}; if (d<depth) st.push_back(C1(Bl(id+1), L({X(), V(0, 3)}))); else st.push_back(boom); if (kind==3 && d==depth) st.push_back(Def(TV(0, 4), num(0))); st.push_back(log(d, num(10*d+1))); st.push_back(V(0, 3)); p.bo[id] = body(2, st); }
  // the catcher: {f⎊{⟨"caught",log⟩} 𝕩} around, several times over
  int cid = p.bl.size(); p.bo.push_back(body(0, {L({C(Val::str("caught")), X(), V(2, 0)})})); p.bl.push_back(fnBlock(p.bo.size()-1)); int tid = p.bl.size(); p.bo.push_back(body(1, {Def(TV(0, 3), M2(P("⎊"), Bl(1), Bl(cid))), again? L({C1(V(0, 3), X()), C2(V(0, 3), num(1), X()), C1(V(0, 3), num(2)), V(1, 0)}) : C2(V(0, 3), W(), X())})); p.bl.push_back(fnBlock(p.bo.size()-1)); p.bo[0].st[1] = Bl(tid);
  // f is now one scope further in
  std::function<N(const N&, int)> shift = [&](const N& n, int d) -> N { N r = std::make_shared<Node>(*n); if ((r->k==K_VAR || r->k==T_VAR || r->k==K_VARU) && r->d>=d) r->d++; for (auto& a : r->a) a = shift(a, d); return r; };
  for (int d = 1; d <= depth; d++) for (auto& s : p.bo[d].st) s = shift(s, d);
  go(ex, p, {Val(5), numsV({8, 9})}, {Val(7)}, 3, 1); int g = cb_gsdepth(), e = cb_envdepth(); static int g0 = g, e0 = e; if (g!=g0 || e!=e0) ex.fail("%s\n  leaves the value stack at %d (before: %d), the call stack at %d (before: %d)", text(p).c_str(), g, g0, e, e0);
}
// --- sizes
static void sizes(Ex& ex) {
  int what = ex.pick(6), n = ex.of(vector<int>{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}); Prog p; p.bl = {immBlock(0), fnBlock(1)}; p.bo = {body(0, {Bl(1)}), body(0, {})}; auto& f = p.bo[1];
  switch (what) {
    case 0: { vector<N> v; for (int i = 0; i < n; i++) v.push_back(i%3==0? num(i) : i%3==1? X() : C(Val::chr('a'+i%26))); f.st = {L(v)}; break; } // long lists
    case 1: { vector<N> out; for (int i = 0; i < n; i++) { f.st.push_back(Def(TV(0, 3+i), i? C2(P("⋈"), V(0, 2+i), num(i)) : X())); if (i && i%5!=0) f.st.push_back(Set(TV(0, 2+i), num(-i))); } for (int i = 0; i < n; i++) out.push_back(V(0, 3+i)); f.st.push_back(L(out)); f.vars = n; break; } // many variables
    case 2: { N e = X(); for (int i = 0; i < n; i++) e = i%2? C2(P("⋈"), e, num(i)) : C1(P("⊢"), e); f.st = {e}; break; } // deep expressions
    case 3: { if (n>100) return; for (int i = 1; i < n; i++) { p.bl.push_back(fnBlock(i+1)); p.bo.push_back(Body()); } for (int i = 1; i <= n; i++) { if (i==n) p.bo[i] = body(1, {Def(TV(0, 3), X()), L({X(), V(n-1, 3), V(n/2, 3), V(0, 3), V(n-1, 1)})}); else p.bo[i] = body(1, {Def(TV(0, 3), C2(P("+"), num(i), X())), C1(Bl(i+1), C2(P("+"), X(), num(1)))}); } if (n==0) f.st = {X()}; break; } // deeply nested scopes
    case 4: { vector<N> v, t, out; for (int i = 0; i < n; i++) { v.push_back(L({X(), num(i)})); t.push_back(i%4==3? TL({TV(0, 3+i), TN()}) : TV(0, 3+i)); out.push_back(V(0, 3+i)); } f.vars = n; f.st = {Def(TL(t), L(v)), Call(TL({}), P("⊢")), L(out)}; if (n>2) f.st[1] = Set(TL({TV(0, 3), TV(0, 4)}), L({V(0, 4), V(0, 3)})); break; } // wide destructuring
    default: { p.bl[1].simple = false; p.bl[1].b[0].clear(); p.bl[1].b[1].clear(); p.bo.resize(1); if (n==0 || n>129) return; for (int i = 0; i < n; i++) { int id = p.bo.size(); p.bo.push_back(body(1, {Hdr(TC(Val(i)), X()), L({num(1000+i), X()})})); if (i%3!=1) p.bl[1].b[0].push_back(id); if (i%3!=0) p.bl[1].b[1].push_back(id); } vector<Val> xs, ws; for (int i = -1; i <= n; i++) { xs.push_back(Val(i)); ws.push_back(Val(1)); } go(ex, p, xs, ws, 2); return; } // many bodies
  }
  go(ex, p, {Val(5), numsV({8, 9}), Val::str("abc")}, {Val(7), Val(1)}, 3, 1);
}
static void undefinedVars(Ex& ex) { // variables read, changed and set before they have a value, used or as statements, local and outer
  N ta = TV(0, 3), tb = TV(0, 4), tc = TV(1, 0); auto one = [](double d) { return num(d); };
  const vector<N> st = {Def(ta, X()), Def(tb, L({X(), X()})), Set(ta, one(1)), Set(tb, L({one(1), one(2)})), Set(tc, X()), Mod(ta, P("⋈"), X()), Call(tb, P("⌽")), Mod(tc, P("⋈"), one(4)), L({Set(ta, one(3)), one(4)}), L({Set(tc, one(3)), one(4)}), C2(P("⋈"), Mod(tb, P("⋈"), one(5)), X()), Set(TL({ta, tb}), L({one(6), one(7)})), Def(TL({ta, tc}), L({one(8), one(9)})), A(), V(1, 0), C2(M2(P("⎊"), P("⊑"), P("⊣")), X(), B())};
  int k = ex.thorough? 4 : 3, outer = ex.pick(2); vector<N> b; for (int i = 0; i < k; i++) b.push_back(st[ex.pick(st.size())]); b.push_back(X()); Prog p; p.bl = {immBlock(0), fnBlock(1)}; p.bo = {body(1, {Bl(1)}), body(2, b)}; if (outer) p.bo[0].st = {Def(TV(0, 0), num(1)), Bl(1)};
  go(ex, p, {Val(5), numsV({8, 9})}, {}, 4);
}
static void recursion(Ex& ex) { // 𝕊 on itself to every depth up to 200; runaway recursion is an error that can be caught, again and again
  int n = ex.pick(ex.thorough? 201 : 61)*(ex.thorough? 1 : 3), form = ex.pick(3); Prog p; p.bl = {immBlock(0), fnBlock(1)}; p.bo = {body(0, {Bl(1)})}; p.bl[1].simple = false;
  if (form==0) { p.bl[1].b[0] = {1, 2}; p.bl[1].b[1] = {1, 2}; p.bo.push_back(body(0, {Hdr(TC(Val(0)), X()), C1(P("⋈"), W())})); p.bo.back().st[1] = C2(P("⊣"), W(), num(0)); p.bo.push_back(body(1, {Def(TV(0, 3), X()), C2(P("+"), V(0, 3), C2(S(), W(), C2(P("-"), X(), num(1))))})); }
  else if (form==1) { p.bl[1].b[0] = {1, 2}; p.bl[1].b[1] = {1, 2}; p.bo.push_back(body(0, {Pred(C2(P("≡"), X(), num(0))), num(1)})); p.bo.push_back(body(1, {Def(TV(0, 3), C2(S(), W(), C2(P("-"), X(), num(1)))), C2(P("+"), V(0, 3), X())})); }
  else { p.bl[1] = fnBlock(1); p.bo.push_back(body(1, {Def(TV(0, 3), C1(S(), L({X(), num(1)}))), V(0, 3)})); Pair q(ex, p); Compiler c(p); BV b, r; if (cb_c1(fnOf("•CompObj"), c.run(), &b)) ex.fail("%s", cb_err()); int g = cb_gsdepth(), e = cb_envdepth(); if (n>20) { cb_dec(b); return; } for (int k = 0; k < 3; k++) { if (!cb_c1(b, toB(Val(n)), &r)) ex.fail("%s ends", text(p).c_str()); if (!strstr(cb_err(), "tack overflow")) ex.fail("%s fails with \"%s\"", text(p).c_str(), cb_err()); if (cb_gsdepth()!=g || cb_envdepth()!=e) ex.fail("a stack overflow leaves the stacks at %d and %d, before %d and %d", cb_gsdepth(), cb_envdepth(), g, e); ex.op(); ex.compared(); } cb_dec(b); cb_gc(); ex.tick(); return; }
  Pair q(ex, p); if (!q.load()) return; q.m.maxDepth = 5000; for (int k = 0; k < 3; k++) { q.call(q.b, q.v, nullptr, Val(n), 0); Val w(100); q.call(q.b, q.v, &w, Val(n), 0); } ex.tick();
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C14"; c.assumptions = {"programs are handed to the VM as bytecode of the published format, made from generated syntax trees by lib/vm.hpp, because the self-hosted compiler is not part of this build", "the just-in-time compiler runs at its default threshold, the third call of a body; x86-64"};
  c.init = []() { cb_init(); for (auto g : {"•CompObj", "+", "-", "⋈", "⊢", "⊣", "!", "⊑", "∾", "⌽", "≡", "≢", "<", "˜", "¨", "˙", "∘", "⊸", "⟜", "○", "⎊", "⁼", "⊘"}) fnOf(g); };
  c.perRun = gcEvery(60); c.after = sharedIntact;
  c.sc = {{"statements", 2, statements, 3, "every sequence of 3 of 36 statements over local and outer variables, on 4 argument combinations, each called interpreted and compiled"},
          {"derived", 1, derived, 3, "every train and modifier application (depth 1) of primitives, variables, constants and blocks, with primitive, deferred and immediate modifiers, as a value and called on 5 × 5 operands"},
          {"nested", 2, nestedExpr, 3, "1000 inner expressions within calls and lists on either side"},
          {"closures", 2, closures, 3, "three nested functions with every combination of reads and changes of the variables of every depth, called in turns"},
          {"destructure", 3, destructure, 3, "every target of up to two levels of lists and merges × ← ↩ header × 17 values × representations"},
          {"destructure-modify", 2, destructureMod, 3, "10 targets × 9 functions × F↩ with and without 𝕩"},
          {"undefined", 3, undefinedVars, 3, "every sequence of 3 (4) of 16 statements that read, define and change variables that may have no value yet"},
          {"bodies", 3, bodies, 3, "blocks of 2–3 bodies over both valences with 8 header patterns and predicates, of all three types, on 9 arguments"},
          {"immediate", 2, immediate, 3, "immediate blocks and modifiers of up to 3 bodies with predicates"},
          {"inverses", 2, inverses, 3, "every subset of the five kinds of headers × function and modifiers × ⁼ and ˜⁼"},
          {"modifiers", 2, modifiers, 3, "8 uses of operands × 5 × 5 operands"},
          {"namespaces", 2, namespaces, 3, "every subset of exports × 15 uses"},
          {"namespace-headers", 1, nsHeaders, 3, "7 header patterns × 8 namespaces"},
          {"caught", 2, caught, 3, "9 places × 6 kinds of errors × 3 call depths"},
          {"sizes", 1, sizes, 3, "lists, variables, expressions, scopes, destructuring and bodies of 25 sizes up to 300"},
          {"recursion", 1, recursion, 3, "recursion to every depth up to 180; runaway recursion"}};
  return mainMC(argc, argv, c);
}
