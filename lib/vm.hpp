// Programs: blocks, bodies, statements and expressions as data, a compiler to the VM's bytecode, and a reference
// evaluator that follows the language definition (environments are maps, values are immutable).
#pragma once
#include "gen.hpp"
#include <memory>

namespace bq {
namespace vm {
enum NK { K_CONST, K_PRIM, K_NATIVE, K_VAR, K_VARU, K_C1, K_C2, K_LIST, K_MERGE, K_ATOP, K_FORK, K_M1, K_M2, K_BLOCK, K_SETN, K_SETU, K_SETM, K_SETC, K_FIELD, K_SEQ,
          T_VAR, T_LIST, T_MERGE, T_NONE, T_ALIAS, T_VFY, S_HDR, S_PRED };
struct Node; typedef std::shared_ptr<Node> N;
struct Node { int k; Val c; string s; int d = 0, p = 0; vector<N> a; };
inline N mk(int k, vector<N> a = {}, string s = "", int d = 0, int p = 0) { N n = std::make_shared<Node>(); n->k = k; n->a = a; n->s = s; n->d = d; n->p = p; return n; }
inline N C(Val v) { N n = mk(K_CONST); n->c = v; return n; }
inline N P(const string& s) { return mk(K_PRIM, {}, s); }
inline N V(int d, int p) { return mk(K_VAR, {}, "", d, p); }
inline N VU(int d, int p) { return mk(K_VARU, {}, "", d, p); }
inline N C1(N f, N x) { return mk(K_C1, {f, x}); }
inline N C2(N f, N w, N x) { return mk(K_C2, {f, w, x}); }
inline N L(vector<N> a) { return mk(K_LIST, a); }
inline N M(vector<N> a) { return mk(K_MERGE, a); }
inline N Atop(N f, N g) { return mk(K_ATOP, {f, g}); }
inline N Fork(N f, N g, N h) { return mk(K_FORK, {f, g, h}); }
inline N M1(N m, N f) { return mk(K_M1, {m, f}); }
inline N M2(N m, N f, N g) { return mk(K_M2, {m, f, g}); }
inline N Bl(int id) { return mk(K_BLOCK, {}, "", id); }
inline N Fld(N e, const string& n) { return mk(K_FIELD, {e}, n); }
inline N TV(int d, int p) { return mk(T_VAR, {}, "", d, p); }
inline N TL(vector<N> a) { return mk(T_LIST, a); }
inline N TM(vector<N> a) { return mk(T_MERGE, a); }
inline N TN() { return mk(T_NONE); }
inline N TA(const string& n, N t) { return mk(T_ALIAS, {t}, n); }
inline N TC(Val v) { N n = mk(T_VFY); n->c = v; return n; }
inline N Def(N t, N x) { return mk(K_SETN, {t, x}); }
inline N Set(N t, N x) { return mk(K_SETU, {t, x}); }
inline N Mod(N t, N f, N x) { return mk(K_SETM, {t, f, x}); }
inline N Call(N t, N f) { return mk(K_SETC, {t, f}); }
inline N Hdr(N t, N x) { return mk(S_HDR, {t, x}); }
inline N Pred(N x) { return mk(S_PRED, {x}); }

struct Body { int vars = 0; vector<string> names; vector<char> exported; vector<N> st; bool ns = false; }; // vars: locals beyond the given ones
struct Block { int ty = 0; bool imm = false; vector<int> b[5]; bool simple = true; }; // b: monadic, dyadic, ⁼, 𝕨 ⁼, 𝕨 ˜⁼; simple: one body for both valences
struct Prog { vector<Block> bl; vector<Body> bo; };
inline int given(const Block& b) { return (b.imm? 0 : 3)+b.ty+(b.ty>0); }
inline Block fnBlock(int body, int ty = 0) { Block b; b.ty = ty; b.b[0] = b.b[1] = {body}; return b; }
inline Block immBlock(int body, int ty = 0) { Block b = fnBlock(body, ty); b.imm = true; return b; }

// --- text, for messages
inline string name(const Block* b, int d, int p) {
  string q(d, '^'); if (!b) return q+strf("v%d", p); int g = given(*b); static const char* G[] = {"𝕤", "𝕩", "𝕨", "𝕣", "𝕗", "𝕘"};
  if (p<g) return q+G[b->imm? p+3 : p]; return q+strf("%c", 'a'+(p-g)%26)+(p-g>=26? strf("%d", (p-g)/26) : "");
}
struct Text {
  const Prog& p; vector<const Block*> st;
  Text(const Prog& p) : p(p) {}
  const Block* at(int d) { return d<(int)st.size()? st[st.size()-1-d] : nullptr; }
  string list(const vector<N>& a, const char* o, const char* c) { string r = o; for (size_t i = 0; i < a.size(); i++) r+= (i? "," : "")+go(a[i]); return r+c; }
  string par(const N& n) { string s = go(n); return n->a.size() && n->k!=K_LIST && n->k!=K_MERGE && n->k!=K_FIELD? "("+s+")" : s; }
  string body(const Body& b) { string r; for (size_t i = 0; i < b.st.size(); i++) r+= (i? " ⋄ " : "")+go(b.st[i]); if (b.ns) r+= " ⋄ (namespace)"; return r; }
  string block(int id) {
    const Block& b = p.bl[id]; st.push_back(&b); string r = "{"; if (b.ty) r+= strf("[%d-modifier] ", b.ty);
    if (b.simple) r+= body(p.bo[b.b[0][0]]); else { static const char* T[] = {"𝕊𝕩", "𝕨𝕊𝕩", "𝕊⁼𝕩", "𝕨𝕊⁼𝕩", "𝕨𝕊˜⁼𝕩"}; bool f = true; for (int i = 0; i < 5; i++) for (int j : b.b[i]) { r+= f? "" : " ; "; f = false; r+= string(T[i])+": "+body(p.bo[j]); } }
    st.pop_back(); return r+"}";
  }
  string go(const N& n) {
    auto& a = n->a;
    switch (n->k) {
      case K_CONST: return show(n->c); case K_PRIM: case K_NATIVE: return n->s; case K_VAR: return name(at(n->d), n->d, n->p); case K_VARU: return name(at(n->d), n->d, n->p)+"°";
      case K_C1: return par(a[0])+" "+go(a[1]); case K_C2: return par(a[1])+" "+par(a[0])+" "+go(a[2]);
      case K_LIST: case T_LIST: return list(a, "⟨", "⟩"); case K_MERGE: case T_MERGE: return list(a, "[", "]");
      case K_ATOP: return par(a[0])+" "+par(a[1]); case K_FORK: return par(a[0])+" "+par(a[1])+" "+par(a[2]); case K_M1: return par(a[1])+" "+par(a[0])+"_"; case K_M2: return par(a[1])+" _"+par(a[0])+"_ "+par(a[2]);
      case K_BLOCK: return block(n->d); case K_SETN: return go(a[0])+"←"+go(a[1]); case K_SETU: return go(a[0])+"↩"+go(a[1]); case K_SETM: return go(a[0])+" "+par(a[1])+"↩ "+go(a[2]); case K_SETC: return go(a[0])+" "+par(a[1])+"↩";
      case K_FIELD: return par(a[0])+"."+n->s; case T_VAR: return name(at(n->d), n->d, n->p); case T_NONE: return "·"; case T_ALIAS: return n->s+"⇐"+go(a[0]); case T_VFY: return show(n->c);
      case S_HDR: return go(a[0])+" ≡: "+go(a[1]); case S_PRED: return go(a[0])+" ?";
    }
    return "?";
  }
};
inline string text(const Prog& p) { Text t(p); return t.block(0); }

// --- compiling
struct Code { vector<int> bc; vector<BV> objs; vector<string> names; vector<vector<int>> blk; };
struct Compiler {
  const Prog& p; vector<int> bc; vector<BV> objs; vector<string> names; vector<int> pos; vector<const Block*> st; bool named = false; std::map<string,int> prims;
  Compiler(const Prog& p) : p(p) {}
  int nm(const string& s) { for (size_t i = 0; i < names.size(); i++) if (names[i]==s) return i; names.push_back(s); return names.size()-1; }
  void op(vector<int> v) { bc.insert(bc.end(), v.begin(), v.end()); }
  void push(BV v) { op({0, (int)objs.size()}); objs.push_back(v); }
  bool may(const N& n) { if ((n->k==K_VAR || n->k==K_VARU) && n->d==0) { const Block* b = st.back(); return !b->imm && n->p==2; } if (n->k==K_C1) return may(n->a[1]); if (n->k==K_C2) return may(n->a[2]); if (n->k==K_SETN || n->k==K_SETU) return false; return false; }
  void val(const N& n) { go(n); if (may(n)) op({0x16}); }
  void target(const N& n) {
    switch (n->k) {
      case T_VAR: op({0x21, n->d, n->p}); break; case T_LIST: for (auto& e : n->a) target(e); op({0x0C, (int)n->a.size()}); break; case T_MERGE: for (auto& e : n->a) target(e); op({0x0E, (int)n->a.size()}); break;
      case T_NONE: op({0x2C}); break; case T_ALIAS: target(n->a[0]); op({0x42, nm(n->s)}); break; case T_VFY: push(toB(n->c)); op({0x2B}); break; default: abort();
    }
  }
  void go(const N& n) {
    auto& a = n->a;
    switch (n->k) {
      case K_CONST: push(toB(n->c)); break; case K_PRIM: case K_NATIVE: push(cb_inc(fnOf(n->s))); break; case K_VAR: op({0x20, n->d, n->p}); break; case K_VARU: op({0x22, n->d, n->p}); break;
      case K_C1: go(a[1]); val(a[0]); op({may(a[1])? 0x12 : 0x10}); break;
      case K_C2: { go(a[2]); val(a[0]); go(a[1]); op({may(a[1]) || may(a[2])? 0x13 : 0x11}); break; }
      case K_LIST: for (auto& e : a) val(e); op({0x0B, (int)a.size()}); break; case K_MERGE: for (auto& e : a) val(e); op({0x0D, (int)a.size()}); break;
      case K_ATOP: val(a[1]); val(a[0]); op({0x14}); break; case K_FORK: val(a[2]); val(a[1]); if (may(a[0])) { go(a[0]); op({0x17}); } else { go(a[0]); op({0x15}); } break;
      case K_M1: val(a[0]); val(a[1]); op({0x1A}); break; case K_M2: val(a[2]); val(a[0]); val(a[1]); op({0x1B}); break;
      case K_BLOCK: op({0x01, n->d}); break;
      case K_SETN: case K_SETU: val(a[1]); target(a[0]); op({n->k==K_SETN? 0x30 : 0x31}); break; case K_SETM: val(a[2]); val(a[1]); target(a[0]); op({0x32}); break; case K_SETC: val(a[1]); target(a[0]); op({0x33}); break;
      case K_FIELD: val(a[0]); op({0x40, nm(n->s)}); break;
      case S_HDR: go(a[1]); target(a[0]); op({0x2F}); break; case S_PRED: val(a[0]); op({0x2A}); break;
      default: abort();
    }
  }
  void blocks(int id) { // bodies of one block, then the blocks it defines
    const Block& b = p.bl[id]; st.push_back(&b); vector<int> done;
    for (int k = 0; k < 5; k++) for (int j : b.b[k]) { if (pos[j]>=0) continue; pos[j] = bc.size(); const Body& o = p.bo[j]; bool have = false;
      for (size_t i = 0; i < o.st.size(); i++) { const N& s = o.st[i]; bool last = i+1==o.st.size(); if (have) { op({6}); have = false; } if (last && !o.ns) val(s); else go(s); have = s->k!=S_HDR && s->k!=S_PRED; }
      op({o.ns? 8 : 7}); }
    st.pop_back();
  }
  BV run() { // the argument of •CompObj
    pos.assign(p.bo.size(), -1); for (size_t i = 0; i < p.bl.size(); i++) blocks(i);
    auto ints = [](const vector<int>& v) { vector<int32_t> q(v.begin(), v.end()); size_t s[1] = {v.size()}; return v.empty()? toB(Val::vec({})) : cb_mkarr(CE_I32, v.size(), 1, s, q.data()); };
    auto list = [](const vector<BV>& v) { size_t s[1] = {v.size()}; return v.empty()? toB(Val::vec({})) : cb_mkarr(CE_B, v.size(), 1, s, v.data()); };
    vector<BV> bl, bo;
    for (auto& b : p.bl) { BV x; if (b.simple) x = cb_mknum(b.b[0][0]); else { int last = 0; for (int i = 0; i < 5; i++) if (!b.b[i].empty()) last = i; vector<BV> q; for (int i = 0; i <= std::max(last, 1); i++) q.push_back(ints(b.b[i])); x = list(q); } bl.push_back(list({cb_mknum(b.ty), cb_mknum(b.imm), x})); }
    // locals carry names only where they are exported or matched against fields
    vector<int> giv(p.bo.size(), 0); for (auto& b : p.bl) for (auto& k : b.b) for (int j : k) giv[j] = given(b);
    bool any = !names.empty(); for (auto& o : p.bo) if (!o.names.empty()) any = true;
    for (size_t j = 0; j < p.bo.size(); j++) { auto& o = p.bo[j]; vector<BV> q = {cb_mknum(pos[j]), cb_mknum(giv[j]+o.vars)}; if (any) { vector<int> id, ex; for (int i = 0; i < o.vars; i++) { id.push_back(nm(i<(int)o.names.size()? o.names[i] : strf("zz%d", i))); ex.push_back(i<(int)o.exported.size() && o.exported[i]); } q.push_back(ints(id)); q.push_back(ints(ex)); } bo.push_back(list(q)); }
    vector<BV> all = {ints(bc), list(objs), list(bl), list(bo)};
    if (any) { vector<BV> s; for (auto& n : names) s.push_back(cb_str(n.c_str())); BV e = toB(Val::vec({})); all.push_back(list({ints(vector<int>(bc.size(), 0)), ints(vector<int>(bc.size(), 0))})); all.push_back(list({cb_inc(e), cb_inc(e), list({list(s)})})); cb_dec(e); }
    return list(all);
  }
};

// --- the reference evaluator
struct Sc; typedef std::shared_ptr<Sc> SP;
struct Sc { SP psc; const Block* bl; const Body* bo; vector<Val> v; vector<char> st; }; // st: 0 undefined, 1 set, 2 taken by an unfinished F↩, 3 by its last use
struct Fn { int k; string s; SP sc; int bl = 0; vector<Val> a; }; // a function, modifier or namespace
enum { O_PRIM, O_BLOCK, O_M1D, O_M2D, O_ATOP, O_FORK, O_NS, O_CONST, O_INV };
struct Machine {
  const Prog& p; vector<Fn> fn; int budget = 20000; int depth = 0, maxDepth = 2000;
  Machine(const Prog& p) : p(p) {}
  static Val nothing() { Val r; r.k = Val::FUN; r.n = -1; return r; }
  static bool isNothing(const Val& v) { return v.k==Val::FUN && v.n==-1; }
  static bool isFn(const Val& v) { return v.k==Val::FUN && v.n>=0; }
  Val fun(Fn f) { fn.push_back(f); Val r; r.k = Val::FUN; r.n = fn.size()-1; return r; }
  static bool funIn(const Val& v) { if (v.k==Val::FUN) return true; if (v.isArr()) for (auto& e : v.it()) if (funIn(e)) return true; return false; }
  int kindOf(const Val& v) { // 0 function or data, 1, 2 modifiers, 3 namespace
    if (!isFn(v)) return 0; auto& f = fn[(int)v.n]; if (f.k==O_NS) return 3; if (f.k==O_BLOCK) return p.bl[f.bl].ty; if (f.k==O_PRIM) return f.s=="˜" || f.s=="¨" || f.s=="˙" || f.s=="⁼"? 1 : f.s=="∘" || f.s=="⊸" || f.s=="⟜" || f.s=="○" || f.s=="⎊" || f.s=="⊘"? 2 : 0; return 0; }
  Val nativeFold(const string& s, const Val* w, const Val& x) {
    if (s=="⊢") return x; if (s=="⊣") return w? *w : x; if (s=="⋈") return w? Val::vec({*w, x}) : Val::vec({x}); if (s=="!") { if (!w) { if (!x.isNum() || x.n!=1) err(); return x; } if (!x.isNum() || x.n!=1) err(); return x; }
    if (s=="⊑" || s=="∾" || s=="≢" || s=="<") return w? p2(s, *w, x) : p1(s, x);
    if (funIn(x) || (w && funIn(*w))) err(); return w? p2(s, *w, x) : p1(s, x);
  }
  Val call(const Val& f, const Val* w, const Val& x, int inv = 0) { // inv: 1 𝔽⁼, 2 𝕨𝔽⁼, 3 𝕨𝔽˜⁼
    if (--budget<0) unspec();
    if (!isFn(f)) { if (inv) unspec(); return f; }
    Fn o = fn[(int)f.n];
    switch (o.k) {
      case O_PRIM: if (kindOf(f)) err(); if (inv) unspec(); return nativeFold(o.s, w, x);
      case O_NS: if (inv) unspec(); return f; // a namespace in function position is a constant
      case O_BLOCK: if (p.bl[o.bl].ty) err(); return enter(o.bl, o.sc, {f, x, w? *w : nothing()}, inv? 1+inv : w? 1 : 0);
      case O_ATOP: { if (inv) unspec(); Val r = call(o.a[1], w, x); return call(o.a[0], nullptr, r); }
      case O_FORK: { if (inv) unspec(); Val r = call(o.a[2], w, x), l = call(o.a[0], w, x); return call(o.a[1], &l, r); }
      case O_INV: { if (inv) unspec(); Fn& g = fn[(int)o.a[0].n]; if (g.k==O_M1D && isFn(g.a[0]) && fn[(int)g.a[0].n].s=="˜") { if (!w) unspec(); return call(g.a[1], w, x, 3); } return call(o.a[0], w, x, w? 2 : 1); }
      case O_M1D: { Fn m = fn[(int)o.a[0].n]; Val g = o.a[1];
        if (m.k==O_BLOCK) return enter(m.bl, m.sc, {f, x, w? *w : nothing(), o.a[0], g}, inv? 1+inv : w? 1 : 0); if (inv) unspec();
        if (m.s=="˜") return call(g, &x, w? *w : x); if (m.s=="˙") return g; if (m.s=="¨") { if (w) { F2 q = [&](const Val& a, const Val& b) { return call(g, &a, b); }; return each2(q, *w, x); } F1 q = [&](const Val& a) { return call(g, nullptr, a); }; return each1(q, x); } abort(); }
      case O_M2D: { Fn m = fn[(int)o.a[0].n]; Val g = o.a[1], h = o.a[2];
        if (m.k==O_BLOCK) return enter(m.bl, m.sc, {f, x, w? *w : nothing(), o.a[0], g, h}, inv? 1+inv : w? 1 : 0); if (inv) unspec();
        if (m.s=="∘") { Val r = call(h, w, x); return call(g, nullptr, r); } if (m.s=="○") { Val r = call(h, nullptr, x); if (!w) return call(g, nullptr, r); Val l = call(h, nullptr, *w); return call(g, &l, r); }
        if (m.s=="⊸") { Val l = call(g, nullptr, w? *w : x); return call(h, &l, x); } if (m.s=="⟜") { Val r = call(h, nullptr, x); return call(g, w? w : &x, r); } if (m.s=="⊘") return call(w? h : g, w, x);
        if (m.s=="⎊") { int d = depth; try { return call(g, w, x); } catch (Err&) { depth = d; return call(h, w, x); } } abort(); }
      default: return f;
    }
  }
  Val derive1(const Val& m, const Val& f) { if (kindOf(m)!=1) err(); Fn& o = fn[(int)m.n]; if (o.k==O_PRIM && o.s=="⁼") { if (!isFn(f)) unspec(); return fun(Fn{O_INV, "", nullptr, 0, {f}}); } if (kindOf(f)==1 || kindOf(f)==2) err(); if (o.k==O_BLOCK && p.bl[o.bl].imm) { int b = o.bl; SP s = o.sc; return enter(b, s, {m, f}, 0); } return fun(Fn{O_M1D, "", nullptr, 0, {m, f}}); }
  Val derive2(const Val& m, const Val& f, const Val& g) { if (kindOf(m)!=2) err(); Fn& o = fn[(int)m.n]; if (kindOf(f)==1 || kindOf(f)==2 || kindOf(g)==1 || kindOf(g)==2) err(); if (o.k==O_BLOCK && p.bl[o.bl].imm) { int b = o.bl; SP s = o.sc; return enter(b, s, {m, f, g}, 0); } return fun(Fn{O_M2D, "", nullptr, 0, {m, f, g}}); }
  // runs the bodies of a block one after another until one applies
  Val enter(int id, SP psc, const vector<Val>& args, int which) {
    if (++depth>maxDepth) unspec();
    const Block& b = p.bl[id]; const vector<int>& l = b.simple? (which>1? b.b[4] : b.b[0]) : b.b[which];
    for (int j : l) { const Body& o = p.bo[j]; SP s = std::make_shared<Sc>(); s->psc = psc; s->bl = &b; s->bo = &o; s->v = args; s->st.assign(args.size(), 1); s->v.resize(args.size()+o.vars); s->st.resize(args.size()+o.vars, 0); Val r; if (run(s, o, r)) { depth--; return r; } }
    err(); // no body applies, or none exists for this valence
  }
  bool run(SP s, const Body& o, Val& r) {
    for (auto& n : o.st) {
      if (n->k==S_HDR) { Val x = ev(n->a[1], s); if (!bindH(n->a[0], x, s)) return false; }
      else if (n->k==S_PRED) { Val x = need(n->a[0], s); if (!x.isNum() || (x.n!=0 && x.n!=1)) err(); if (x.n==0) return false; }
      else { r = ev(n, s); if (&n==&o.st.back() && !o.ns && isNothing(r)) err(); }
    }
    if (o.ns) r = fun(Fn{O_NS, "", s, 0, {}});
    return true;
  }
  Sc* at(SP s, int d) { Sc* q = s.get(); while (d--) q = q->psc.get(); return q; }
  Val need(const N& n, SP s) { Val r = ev(n, s); if (isNothing(r)) err(); return r; }
  Val ev(const N& n, SP s) {
    auto& a = n->a; if (--budget<0) unspec();
    switch (n->k) {
      case K_CONST: return n->c; case K_PRIM: return fun(Fn{O_PRIM, n->s});
      case K_VAR: case K_VARU: { Sc* q = at(s, n->d); if (q->st[n->p]==3) unspec(); if (q->st[n->p]!=1) { if (n->k==K_VARU) unspec(); err(); } Val r = q->v[n->p]; if (n->k==K_VARU) { q->st[n->p] = 3; q->v[n->p] = Val(); } return r; }
      case K_C1: { Val x = ev(a[1], s), f = need(a[0], s); if (isNothing(x)) return x; return call(f, nullptr, x); }
      case K_C2: { Val x = ev(a[2], s), f = need(a[0], s), w = ev(a[1], s); if (isNothing(x)) return x; return isNothing(w)? call(f, nullptr, x) : call(f, &w, x); }
      case K_LIST: case K_MERGE: { vector<Val> v; for (auto& e : a) v.push_back(need(e, s)); Val r = Val::vec(v); return n->k==K_LIST? r : merge(r); }
      case K_ATOP: { Val h = need(a[1], s), g = need(a[0], s); okTrain(h); okTrain(g); return fun(Fn{O_ATOP, "", nullptr, 0, {g, h}}); }
      case K_FORK: { Val h = need(a[2], s), g = need(a[1], s), f = ev(a[0], s); okTrain(h); okTrain(g); if (isNothing(f)) return fun(Fn{O_ATOP, "", nullptr, 0, {g, h}}); okTrain(f); return fun(Fn{O_FORK, "", nullptr, 0, {f, g, h}}); }
      case K_M1: { Val m = need(a[0], s), f = need(a[1], s); return derive1(m, f); } case K_M2: { Val h = need(a[2], s), m = need(a[0], s), f = need(a[1], s); return derive2(m, f, h); }
      case K_BLOCK: { const Block& b = p.bl[n->d]; if (b.imm && b.ty==0) return enter(n->d, s, {}, 0); return fun(Fn{O_BLOCK, "", s, n->d, {}}); }
      case K_SETN: case K_SETU: { Val x = need(a[1], s); assign(a[0], x, s, n->k==K_SETU); return x; }
      case K_SETM: { Val x = need(a[2], s), f = need(a[1], s), w = take(a[0], s); Val r = call(f, &w, x); if (isNothing(r)) unspec(); assign(a[0], r, s, false); return r; }
      case K_SETC: { Val f = need(a[1], s), x = take(a[0], s); Val r = call(f, nullptr, x); if (isNothing(r)) unspec(); assign(a[0], r, s, false); return r; }
      case K_FIELD: { Val x = need(a[0], s); return field(x, n->s); }
    }
    abort();
  }
  void okTrain(const Val& v) { int k = kindOf(v); if (k==1 || k==2) unspec(); }
  bool hasField(const Val& x, const string& nm, Val* r) { auto& o = fn[(int)x.n]; Sc& s = *o.sc; for (size_t i = 0; i < s.bo->names.size(); i++) if (s.bo->exported[i] && s.bo->names[i]==nm) { int q = given(*s.bl)+i; if (s.st[q]!=1) unspec(); *r = s.v[q]; return true; } return false; }
  Val field(const Val& x, const string& nm) { if (kindOf(x)!=3) err(); Val r; if (!hasField(x, nm, &r)) err(); return r; }
  Val take(const N& t, SP s) { // F↩: the current value; the variables are unavailable until the new value is there
    switch (t->k) { case T_VAR: { Sc* q = at(s, t->d); if (q->st[t->p]==3) unspec(); if (q->st[t->p]!=1) err(); Val r = q->v[t->p]; q->st[t->p] = 2; q->v[t->p] = Val(); return r; }
      case T_LIST: case T_MERGE: { vector<Val> v; for (auto& e : t->a) v.push_back(take(e, s)); Val r = Val::vec(v); return t->k==T_LIST? r : merge(r); } default: unspec(); } }
  string targetName(const N& t, SP s) { Sc* q = at(s, t->d); size_t i = t->p-given(*q->bl); return i<q->bo->names.size()? q->bo->names[i] : strf("zz%d", (int)i); }
  void assign(const N& t, const Val& x, SP s, bool upd) {
    switch (t->k) {
      case T_VAR: { Sc* q = at(s, t->d); if (upd && q->st[t->p]==0) err(); q->v[t->p] = x; q->st[t->p] = 1; break; }
      case T_NONE: break;
      case T_ALIAS: err();
      case T_LIST: if (x.isArr() && x.rank()==1 && x.ia()==t->a.size()) { for (size_t i = 0; i < t->a.size(); i++) assign(t->a[i], x.it()[i], s, upd); break; }
        if (kindOf(x)!=3) err(); for (auto& e : t->a) { if (e->k==T_VAR) assign(e, field(x, targetName(e, s)), s, upd); else if (e->k==T_ALIAS) assign(e->a[0], field(x, e->s), s, upd); else err(); } break;
      case T_MERGE: { if (!x.isArr() || x.rank()==0 || x.sh()[0]!=t->a.size()) err(); for (size_t i = 0; i < t->a.size(); i++) assign(t->a[i], cellArr(x, i), s, upd); break; }
      default: abort();
    }
  }
  static Val cellArr(const Val& x, size_t i) { Val c = cellOf(x, i); return asArr(c); }
  bool bindH(const N& t, const Val& x, SP s) { // headers: what does not fit is no error
    switch (t->k) {
      case T_VAR: case T_NONE: assign(t, x, s, false); return true;
      case T_VFY: return matchV(t->c, x);
      case T_ALIAS: return false;
      case T_LIST: if (x.isArr() && x.rank()==1 && x.ia()==t->a.size()) { for (size_t i = 0; i < t->a.size(); i++) if (!bindH(t->a[i], x.it()[i], s)) return false; return true; }
        if (kindOf(x)!=3) return false; for (auto& e : t->a) { Val f; if (e->k==T_VAR) { if (!hasField(x, targetName(e, s), &f) || !bindH(e, f, s)) return false; } else if (e->k==T_ALIAS) { if (!hasField(x, e->s, &f) || !bindH(e->a[0], f, s)) return false; } else return false; } return true;
      case T_MERGE: if (!x.isArr() || x.rank()==0 || x.sh()[0]!=t->a.size()) return false; for (size_t i = 0; i < t->a.size(); i++) if (!bindH(t->a[i], cellArr(x, i), s)) return false; return true;
    }
    abort();
  }
  Val start() { return enter(0, nullptr, {}, 0); }
};

// --- a program loaded into the implementation and the reference side by side
struct Pair {
  Ex& ex; const Prog& p; Machine m; BV b = 0; Val v; string hist; bool dead = false; // dead: the program itself fails
  Pair(Ex& ex, const Prog& p) : ex(ex), p(p), m(p) {}
  ~Pair() { if (b) cb_dec(b); for (auto& f : m.fn) f.sc = nullptr; } // breaks the model's cycles
  string what() { return text(p)+hist; }
  bool load() { // false: the program's own evaluation fails, as it should
    Compiler c(p); BV arg = c.run(); Outcome o = outcomeOf([&]() { return m.start(); });
    int rc = cb_c1(fnOf("•CompObj"), arg, &b); ex.op(); if (rc) b = 0;
    if (o.unspec) { dead = true; return false; } if (rc && !o.err) ex.fail("%s\n  fails: %s", what().c_str(), cb_err()); if (!rc && o.err) ex.fail("%s\n  gives %s, expected an error", what().c_str(), show(fromB(b)).c_str());
    if (o.err) { dead = true; return false; } v = o.v; compare(b, v, 3); return true;
  }
  // the two results agree; functions are called to see
  void compare(BV r, const Val& e, int depth) {
    ex.compared();
    if (e.k==Val::FUN) {
      int k = m.kindOf(e), c = cb_kind(r); if ((k==0 && c!=CK_FUN) || (k==1 && c!=CK_MD1) || (k==2 && c!=CK_MD2) || (k==3 && c!=CK_NSP)) ex.fail("%s\n  gives a value of the wrong kind (%d, expected %d)", what().c_str(), c, k);
      if (k==3) { Sc& s = *m.fn[(int)e.n].sc; for (size_t i = 0; i < s.bo->names.size(); i++) { int q = given(*s.bl)+i; BV f; if (!s.bo->exported[i]) { if (!cb_field(r, s.bo->names[i].c_str(), &f)) ex.fail("%s\n  exports the field %s", what().c_str(), s.bo->names[i].c_str()); continue; } if (s.st[q]!=1) continue; if (cb_field(r, s.bo->names[i].c_str(), &f)) ex.fail("%s\n  gives a namespace without field %s", what().c_str(), s.bo->names[i].c_str()); if (depth) compare(f, s.v[q], depth-1); cb_dec(f); } }
      else if (k==0 && depth) { static const Val W3(3), X5(5); for (int dy = 0; dy < 2 && !dead; dy++) call(r, e, dy? &W3 : nullptr, X5, depth-1); }
      return;
    }
    if (e.isArr() && Machine::funIn(e)) { if (cb_kind(r)!=CK_ARR || cb_ia(r)!=e.ia()) ex.fail("%s\n  gives %s\n  expected %s", what().c_str(), show(fromB(r)).c_str(), show(e).c_str()); for (size_t i = 0; i < e.ia(); i++) compare(cb_item(r, i), e.it()[i], depth); return; }
    string why; if (!wellFormed(r, &why)) ex.fail("%s\n  gives a malformed value: %s", what().c_str(), why.c_str());
    if (!same(r, e)) ex.fail("%s\n  gives    %s\n  expected %s", what().c_str(), show(fromB(r)).c_str(), show(e).c_str());
    ex.outcome(hashV(e));
  }
  // one call on both sides; true if it gave a value
  bool call(BV f, const Val& fe, const Val* w, const Val& x, int depth, BV* out = nullptr, Val* oute = nullptr, Rep rw = {}, Rep rx = {}) {
    string h0 = hist; hist+= strf(" → called on %s%s%s", w? show(*w).c_str() : "", w? " and " : "", show(x).c_str());
    m.budget = 20000; m.depth = 0; Outcome o = outcomeOf([&]() { return m.call(fe, w, x); });
    if (o.unspec) { hist = h0; dead = true; return false; }
    BV r; int rc = w? cb_c2(f, toB(*w, rw), toB(x, rx), &r) : cb_c1(f, toB(x, rx), &r); ex.op();
    if (rc && !o.err) ex.fail("%s\n  gives an error: %s\n  expected %s", what().c_str(), cb_err(), show(o.v).c_str());
    if (!rc && o.err) ex.fail("%s\n  gives %s\n  expected an error", what().c_str(), show(fromB(r)).c_str());
    if (rc) { ex.outcome(0x99); hist = h0; return false; }
    compare(r, o.v, depth); if (ex.verbose) ex.say("%s ⇒ %s", what().c_str(), show(o.v).c_str());
    if (out) { *out = r; *oute = o.v; } else cb_dec(r); hist = h0; return true;
  }
  #ifdef FAULT
  void outOfMemory(const vector<Val>& xs, const vector<Val>& ws) { // the program loaded afresh and called with every new kind of allocation failing, interpreted and compiled
    BV comp = fnOf("•CompObj"), r;
    for (int k = 0; k < 300; k++) { Compiler c(p); int q = cb_try(1, comp, 0, c.run(), -1, 1, &r); if (q&2) cb_dec(r); cb_gctop(); if (!(q&1)) break; }
    for (size_t i = 0; i < xs.size(); i++) for (int dy = 0; dy < (i<ws.size()? 2 : 1); dy++) for (int before : {0, 3}) for (int k = 0; k < 300; k++) {
      Compiler c(p); BV f; if (cb_c1(comp, c.run(), &f)) return; auto plain = [&]() { BV q; if (!(dy? cb_c2(f, toB(ws[i]), toB(xs[i]), &q) : cb_c1(f, toB(xs[i]), &q))) cb_dec(q); };
      if (cb_kind(f)!=CK_FUN) { cb_dec(f); return; } for (int j = 0; j < before; j++) plain();
      int q = cb_try(dy? 2 : 1, f, dy? toB(ws[i]) : 0, toB(xs[i]), -1, 2+before, &r); if (q&2) cb_dec(r);
      if (q&1) { cb_gctop(); plain(); } // what is left goes on working
      cb_dec(f); if (!(q&1)) break; cb_gctop();
    }
  }
  #endif
  // the program's function, called often enough to run interpreted and compiled
  void exercise(const vector<Val>& xs, const vector<Val>& ws, int rounds = 2, int depth = 2) {
    #ifdef FAULT
    if (fault_mode==FM_OOM) outOfMemory(xs, ws);
    #endif
    for (int k = 0; k < rounds; k++) for (size_t i = 0; i < xs.size() && !dead; i++) { call(b, v, nullptr, xs[i], depth); if (dead) return; hist+= strf(" (call %d)", k*2+1); if (i<ws.size()) call(b, v, &ws[i], xs[i], depth); hist.clear(); }
  }
};
}
}
