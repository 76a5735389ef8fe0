// Garbage collection: whatever points to whatever, a collection keeps exactly what can still be reached, and that keeps
// working.
#include "vm.hpp"
using namespace bq; using namespace bq::vm;
enum { MAP, CLO, NS, KINDS }; static const char* KN[] = {"map", "closure", "namespace"};
enum { E_IT, E_LIST, E_CONST, E_TRAIN, E_ATOP, E_M2, E_SLICE, E_SCOPE, E_MOD1, E_MOD2, FORMS }; static const char* FN[] = {"it", "⟨it⟩", "it˙", "a train", "an atop", "it˙∘⊢", "a slice", "a closure", "it{𝕗}", "⊢{𝕘}it"};
static BV mkClo, mkNs, mkCap, mod1, mod2;
static BV program(int ty, vector<Body> inner, vector<Block> ib) { // the value of a program whose block 0 gives block 1
  Prog p; p.bl = {immBlock(0)}; p.bo = {Body{}}; p.bo[0].st = {Bl(1)}; for (auto& b : inner) p.bo.push_back(b); for (auto& b : ib) p.bl.push_back(b);
  Compiler c(p); BV r; if (cb_c1(fnOf("•CompObj"), c.run(), &r)) { fprintf(stderr, "program: %s\n", cb_err()); _exit(4); } return r;
}
static Body bod(int vars, vector<N> st) { Body b; b.vars = vars; b.st = st; return b; }
static BV num(double n) { return cb_mknum(n); }
static BV listOf(vector<BV> v) { size_t s[1] = {v.size()}; return cb_mkarr(CE_B, v.size(), 1, s, v.data()); }
static void must(int rc, const char* what) { if (rc) mc::current->fail("%s fails: %s", what, cb_err()); }
static BV c1(BV f, BV x) { BV r; must(cb_c1(f, x, &r), "a call"); return r; }
static BV c2(BV f, BV w, BV x) { BV r; must(cb_c2(f, w, x, &r), "a call"); return r; }

struct Graph {
  Ex& ex; int n; int kind[6]; int form[6][6]; bool alive[6]; // form: -1 no edge
  BV obj[6], set[6]; bool held[6]; string hist;
  Graph(Ex& ex, int n) : ex(ex), n(n) { for (int i = 0; i < 6; i++) { alive[i] = held[i] = false; for (int j = 0; j < 6; j++) form[i][j] = -1; } }
  void create(int i, int k) {
    kind[i] = k; alive[i] = held[i] = true; for (int j = 0; j < n; j++) form[i][j] = -1;
    if (k==MAP) { BV keys = listOf({num(9)}), vals = listOf({num(i)}); obj[i] = c2(fnOf("•HashMap"), keys, vals); must(cb_field(obj[i], "set", &set[i]), "set"); }
    else if (k==CLO) { BV p = c1(mkClo, content(i)); set[i] = cb_inc(cb_item(p, 0)); obj[i] = cb_inc(cb_item(p, 1)); cb_dec(p); }
    else { obj[i] = c1(mkNs, content(i)); must(cb_field(obj[i], "set", &set[i]), "set"); }
    ex.op();
  }
  BV edge(int j, int f) { // a value that leads to node j
    BV t = cb_inc(obj[j]), r;
    switch (f) {
      case E_IT: return t; case E_LIST: return listOf({t}); case E_CONST: must(cb_m1(fnOf("˙"), t, &r), "˙"); return r;
      case E_TRAIN: { BV k; must(cb_m1(fnOf("˙"), t, &k), "˙"); must(cb_fork(k, cb_inc(fnOf("⋈")), cb_inc(fnOf("⊢")), &r), "train"); return r; }
      case E_ATOP: { BV k; must(cb_m1(fnOf("˙"), t, &k), "˙"); must(cb_atop(cb_inc(fnOf("⋈")), k, &r), "atop"); return r; }
      case E_M2: { BV k; must(cb_m1(fnOf("˙"), t, &k), "˙"); must(cb_m2(fnOf("∘"), k, cb_inc(fnOf("⊢")), &r), "∘"); return r; }
      case E_SLICE: { size_t s[1] = {1}; return cb_slice(listOf({num(7), t, num(8)}), 1, 1, 1, s); }
      case E_SCOPE: return c1(mkCap, t); case E_MOD1: must(cb_m1(mod1, t, &r), "a modifier"); return r; case E_MOD2: must(cb_m2(mod2, cb_inc(fnOf("⊢")), t, &r), "a modifier"); return r;
    }
    abort();
  }
  // 𝕩 of the closures' and namespaces' variable: their number and their edges
  BV content(int i) { vector<BV> v = {num(i)}; for (int j = 0; j < n; j++) v.push_back(form[i][j]<0? num(0) : edge(j, form[i][j])); return listOf(v); }
  BV follow(BV e, int f) { // owned: the node an edge leads to
    switch (f) { case E_IT: return cb_inc(e); case E_LIST: case E_SLICE: return cb_inc(cb_item(e, 0)); case E_CONST: case E_M2: case E_SCOPE: case E_MOD1: case E_MOD2: return c1(e, num(5)); case E_TRAIN: case E_ATOP: { BV r = c1(e, num(5)), q = cb_inc(cb_item(r, 0)); cb_dec(r); return q; } }
    abort();
  }
  // edges to nodes that are not held are kept: their values are taken from the old contents
  void link(int i, int j, int f) {
    ex.op(); vector<BV> old; BV e = f<0? 0 : edge(j, f);
    if (kind[i]==MAP) { form[i][j] = f; if (f<0) { BV d; must(cb_field(obj[i], "delete", &d), "delete"); cb_dec(c1(d, num(j))); cb_dec(d); } else cb_dec(c2(set[i], num(j), e)); return; }
    BV cur = read(i), nw; vector<BV> v; for (int q = 0; q <= n; q++) { BV it = cb_item(cur, q); v.push_back(q==1+j? (f<0? num(0) : e) : cb_kind(it)==CK_NUM? it : cb_inc(it)); } form[i][j] = f; cb_dec(cur); nw = listOf(v); cb_dec(c1(set[i], nw));
  }
  BV read(int i) { return readAt(obj[i], kind[i]); }
  BV readAt(BV o, int k) { BV r; if (k==CLO) return c1(o, num(0)); must(cb_field(o, "a", &r), "a"); return r; }
  void release(int i) { if (held[i]) { cb_dec(obj[i]); cb_dec(set[i]); held[i] = false; } }
  string text() { string r; for (int i = 0; i < n; i++) if (alive[i]) { r+= strf("%s%d:%s%s →", r.size()? ", " : "", i, KN[kind[i]], held[i]? "" : " (not held)"); for (int j = 0; j < n; j++) if (form[i][j]>=0) r+= strf(" %d as %s", j, FN[form[i][j]]); } return r+hist; }
  int reach(vector<bool>& r) { r.assign(n, false); vector<int> s; for (int i = 0; i < n; i++) if (held[i]) { r[i] = true; s.push_back(i); } while (!s.empty()) { int i = s.back(); s.pop_back(); for (int j = 0; j < n; j++) if (form[i][j]>=0 && !r[j]) { r[j] = true; s.push_back(j); } } int c = 0; for (bool b : r) c+= b; return c; }
  // node i as found at o: it and all it leads to still is what it was
  void walk(int i, BV o, vector<bool>& seen) {
    if (cb_kind(o)!=(kind[i]==CLO? CK_FUN : CK_NSP)) ex.fail("%s\n  where node %d was is a value of another kind (%d)", text().c_str(), i, cb_kind(o)); if (seen[i]) return; seen[i] = true; ex.compared();
    if (kind[i]==MAP) { BV get; must(cb_field(o, "get", &get), "get"); BV id = c1(get, num(9)); if (cb_kind(id)!=CK_NUM || cb_num(id)!=i) ex.fail("%s\n  where node %d was is another: %s", text().c_str(), i, show(fromB(id)).c_str());
      for (int j = 0; j < n; j++) if (form[i][j]>=0) { BV e = c1(get, num(j)), t = follow(e, form[i][j]); cb_dec(e); walk(j, t, seen); cb_dec(t); } cb_dec(get); return; }
    BV c = readAt(o, kind[i]); if (cb_kind(c)!=CK_ARR || (int)cb_ia(c)!=n+1 || cb_kind(cb_item(c, 0))!=CK_NUM || cb_num(cb_item(c, 0))!=i) ex.fail("%s\n  node %d holds something else", text().c_str(), i);
    for (int j = 0; j < n; j++) if (form[i][j]>=0) { BV t = follow(cb_item(c, 1+j), form[i][j]); walk(j, t, seen); cb_dec(t); } cb_dec(c);
  }
  void check(uint64_t map0, uint64_t sc0) { // after a collection
    vector<bool> r; reach(r); uint64_t m = 0, s = 0; for (int i = 0; i < n; i++) if (r[i]) { if (kind[i]==MAP) m++; s++; for (int j = 0; j < n; j++) if (form[i][j]==E_SCOPE) s++; }
    uint64_t m1 = cb_objects("hashmap")-map0, s1 = cb_objects("scope")-sc0; ex.compared(2);
    if (m1!=m) ex.fail("%s\n  after a collection there are %ld maps, %lu can be reached", text().c_str(), (long)m1, (unsigned long)m); if (s1!=s) ex.fail("%s\n  after a collection there are %ld scopes, %lu can be reached", text().c_str(), (long)s1, (unsigned long)s);
    vector<bool> seen(n, false); for (int i = 0; i < n; i++) if (held[i]) walk(i, obj[i], seen);
    uint64_t h = 3; for (int i = 0; i < n; i++) { h = mix(h, r[i]*8+held[i]*4+(r[i]? kind[i] : 0)); if (r[i]) for (int j = 0; j < n; j++) h = mix(h, form[i][j]+1); } ex.state(h);
  }
  ~Graph() { for (int i = 0; i < n; i++) release(i); }
};
static void collect(bool top) { if (top) cb_gctop(); else cb_gc(); }
static uint64_t map0, sc0, heap0;
static void finish(Graph& g) { for (int i = 0; i < g.n; i++) g.release(i); collect(true); g.ex.compared(); uint64_t u = cb_heap_used(); if (u!=heap0) g.ex.fail("%s\n  once nothing is held, %ld more bytes are in use than before", g.text().c_str(), (long)(u-heap0)); }
static void run(Graph& g, int held, bool top) {
  if (g.ex.verbose) g.ex.say("%s", g.text().c_str());
  for (int i = 0; i < g.n; i++) if (!(held>>i&1)) g.release(i);
  collect(top); g.check(map0, sc0); collect(top); g.check(map0, sc0); finish(g);
}
static void pairs(Ex& ex) { // two nodes, every edge in every form
  Graph g(ex, 2); g.create(0, ex.pick(KINDS)); g.create(1, ex.pick(KINDS)); int held = ex.pick(4); int F = ex.thorough? FORMS : 6; static const int Q[6] = {E_IT, E_LIST, E_TRAIN, E_SLICE, E_SCOPE, E_MOD2};
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { int f = ex.pick(F+1)-1; if (f>=0) g.link(i, j, ex.thorough? f : Q[f]); }
  run(g, held, true);
}
static void triples(Ex& ex) { // three nodes, every set of edges in one form
  Graph g(ex, 3); int f = ex.pick(FORMS); for (int i = 0; i < 3; i++) g.create(i, ex.pick(KINDS)); bool top = ex.thorough? ex.flag() : f&1; int e = ex.pick(512), held = 0;
  for (int i = 0; i < 9; i++) if (e>>i&1) g.link(i/3, i%3, f);
  if (g.kind[0]==g.kind[1] && g.kind[1]==g.kind[2] && !ex.thorough) { held = ex.pick(2); } else held = ex.pick(8); // nodes of one kind are interchangeable
  run(g, held, top);
}
static void quads(Ex& ex) { // four nodes of one kind
  Graph g(ex, 4); int k = ex.pick(KINDS), f = ex.of(vector<int>{E_IT, E_LIST, E_SCOPE}); for (int i = 0; i < 4; i++) g.create(i, k); int hi = ex.pick(256), lo = ex.pick(256); int e = hi*256+lo; if (!ex.thorough && __builtin_popcount(e)>4) return;
  for (int i = 0; i < 16; i++) if (e>>i&1) g.link(i/4, i%4, f);
  run(g, ex.of(vector<int>{0, 1}), f!=E_LIST);
}
static void histories(Ex& ex) { // creating, linking, unlinking, releasing and collecting in every order
  int n = 3; Graph g(ex, n); static const int K[4][3] = {{MAP, CLO, NS}, {CLO, CLO, MAP}, {NS, NS, CLO}, {MAP, MAP, NS}}; const int* kinds = K[ex.pick(4)]; int pat = ex.pick(4), depth = ex.thorough? 4 : 3;
  for (int i = 0; i < n; i++) g.create(i, kinds[i]); if (pat==1 || pat==2) { g.link(0, 1, E_IT); g.link(1, 2, E_LIST); } if (pat==2) g.link(2, 0, E_CONST); if (pat==3) for (int i = 0; i < n; i++) { g.link(i, i, E_IT); g.link(i, (i+1)%n, E_TRAIN); }
  for (int d = 0; d < depth; d++) {
    int op = ex.pick(14); if (op==13) break;
    if (op<9) { int i = op/3, j = op%3; if (!g.held[i]) return; if (g.form[i][j]<0) { if (!g.held[j]) return; g.link(i, j, d&1? E_SCOPE : E_IT); g.hist+= strf(" ⋄ %d→%d", i, j); } else { g.link(i, j, -1); g.hist+= strf(" ⋄ no %d→%d", i, j); } }
    else if (op<12) { int i = op-9; if (!g.held[i]) return; g.release(i); g.hist+= strf(" ⋄ %d released", i); }
    else { collect(d&1); g.hist+= " ⋄ collection"; g.check(map0, sc0); }
    // a node found again through another one is held again
    if (op>=9 && op<12) { int i = op-9; for (int p = 0; p < n; p++) if (g.held[p] && g.form[p][i]>=0 && ex.flag()) { BV e; if (g.kind[p]==MAP) { BV get; must(cb_field(g.obj[p], "get", &get), "get"); e = c1(get, num(i)); cb_dec(get); } else { BV c = g.read(p); e = cb_inc(cb_item(c, 1+i)); cb_dec(c); } BV t = g.follow(e, g.form[p][i]); cb_dec(e);
      if (g.kind[i]==CLO) { cb_dec(t); return; } must(cb_field(t, "set", &g.set[i]), "set"); g.obj[i] = t; g.held[i] = true; g.hist+= strf(" ⋄ %d taken from %d", i, p); break; } }
  }
  collect(true); g.check(map0, sc0); finish(g);
}
static void chains(Ex& ex) { // long chains and rings: how deep the collector goes
  int k = ex.pick(KINDS), f = ex.of(vector<int>{E_IT, E_LIST, E_TRAIN, E_SCOPE}), ring = ex.pick(2), end = ex.pick(3); int n = ex.of(vector<int>{2, 100, 3000, 20000}); if (!ex.thorough && n>3000) return;
  Graph g(ex, 1); g.create(0, k); BV first = cb_inc(g.obj[0]), firstSet = cb_inc(g.set[0]); uint64_t extra = 0; 
  for (int i = 1; i < n; i++) { Graph h(ex, 1); h.kind[0] = k; h.form[0][0] = -1; h.create(0, k); BV e = g.edge(0, f); if (f==E_SCOPE) extra++; if (k==MAP) cb_dec(c2(h.set[0], num(0), e)); else cb_dec(c1(h.set[0], listOf({num(0), e}))); cb_dec(g.obj[0]); cb_dec(g.set[0]); g.obj[0] = h.obj[0]; g.set[0] = h.set[0]; h.held[0] = false; }
  if (ring) { BV e = g.edge(0, f); if (f==E_SCOPE) extra++; if (k==MAP) cb_dec(c2(firstSet, num(0), e)); else cb_dec(c1(firstSet, listOf({num(0), e}))); } cb_dec(first); cb_dec(firstSet); g.hist = strf(" ⋄ a %s of %d", ring? "ring" : "chain", n);
  auto counts = [&](uint64_t m, uint64_t s) { uint64_t a = cb_objects("hashmap")-map0, b = cb_objects("scope")-sc0; ex.compared(2); if (a!=m || b!=s) ex.fail("%s\n  after a collection there are %ld maps and %ld scopes, expected %lu and %lu", g.text().c_str(), (long)a, (long)b, (unsigned long)m, (unsigned long)s); };
  collect(end==1); counts(k==MAP? n : 0, extra+n); if (end==2) { collect(true); counts(k==MAP? n : 0, extra+n); }
  ex.state(mix(mix(mix(k, f), ring), n)); finish(g);
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C15"; c.useStates = true;
  c.assumptions = {"collections within scenarios are requested explicitly; the other parts of the check run one at every kind of allocation"};
  c.init = []() {
    cb_init(); for (auto g : {"•HashMap", "˙", "⋈", "⊢", "∘", "•CompObj"}) fnOf(g);
    mkClo = program(0, {bod(1, {Def(TV(0, 3), V(0, 1)), L({Bl(2), Bl(3)})}), bod(0, {Set(TV(1, 3), V(0, 1))}), bod(0, {V(1, 3)})}, {fnBlock(1), fnBlock(2), fnBlock(3)});
    { Body b = bod(2, {Def(TV(0, 3), V(0, 1)), Def(TV(0, 4), Bl(2))}); b.ns = true; b.names = {"a", "set"}; b.exported = {1, 1}; mkNs = program(0, {b, bod(0, {Set(TV(1, 3), V(0, 1))})}, {fnBlock(1), fnBlock(2)}); }
    mkCap = program(0, {bod(0, {Bl(2)}), bod(0, {V(1, 1)})}, {fnBlock(1), fnBlock(2)});
    mod1 = program(1, {bod(0, {V(0, 4)})}, {fnBlock(1, 1)}); mod2 = program(2, {bod(0, {V(0, 5)})}, {fnBlock(1, 2)});
    // everything runs often enough to be compiled
    Ex ex; mc::current = &ex; try { for (int k = 0; k < 4; k++) { Graph g(ex, 3); for (int i = 0; i < 3; i++) g.create(i, i); for (int f = 0; f < FORMS; f++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { g.link(i, j, f); vector<bool> s(3, false); if (i==2 && j==2) g.walk(0, g.obj[0], s); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) g.link(i, j, -1); } } catch (mc::Failure& f) { fprintf(stderr, "start: %s\n", f.msg.c_str()); _exit(4); } mc::current = nullptr;
    cb_gctop(); cb_gctop(); map0 = cb_objects("hashmap"); sc0 = cb_objects("scope"); heap0 = cb_heap_used();
  };
  c.sc = {{"pairs", 4, pairs, 3, "two nodes of 3 kinds × every edge absent or in one of 6 (10) forms × what is held"},
          {"triples", 5, triples, 3, "three nodes of 3 kinds × all 512 sets of edges × 10 forms × what is held"},
          {"quads", 3, quads, 3, "four nodes of one kind × all sets of up to 4 (all 65536 sets of) edges"},
          {"histories", 4, histories, 3, "every sequence of up to 3 (4) of linking, unlinking, releasing, taking again, collecting, from 16 starts"},
          {"chains", 3, chains, 3, "chains and rings of up to 3000 (20000) nodes"}};
  return mainMC(argc, argv, c);
}
