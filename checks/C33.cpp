// Programs run by •BQN and •ReBQN: the system values they are granted, the state they are given, and sessions that keep their names.
#include "vm.hpp"
#include "bqnffi.h"
using namespace bq; using namespace bq::vm;
static BV REBQN, COMPOBJ, MATCH;
static BV call(Ex& ex, BV f, BV x, const string& what) { BV r; ex.op(); if (cb_c1(f, x, &r)) ex.fail("%s: %s", what.c_str(), cb_err()); return r; }
static bool match(Ex& ex, BV a, BV b) { BV r; ex.op(); ex.compared(); if (cb_c2(MATCH, cb_inc(a), cb_inc(b), &r)) ex.fail("≡: %s", cb_err()); return cb_num(r)==1; }
static BV listOf(const vector<BV>& v) { size_t s[1] = {v.size()}; return v.empty()? toB(Val::vec({})) : cb_mkarr(CE_B, v.size(), 1, s, v.data()); }
// --- grants: what each name means to a program, through up to three levels
struct G { string name; int own; }; // own: 0 inherited, otherwise the number or function (own 99: ⊢) given
typedef vector<std::pair<string, int>> Env; // value: 0 the one of this system, else given
static const vector<string> ALLN = {"type", "glyph", "repr", "listsys", "rebqn", "bqn", "foo", "nosuch", "args", "name", "state", "hash", "math"};
static const vector<G>& items() { static const vector<G> I = {{"type", 0}, {"type", 12}, {"glyph", 0}, {"foo", 11}, {"foo", 99}, {"glyph", 13}, {"foo", 0}, {"listsys", 0}, {"nosuch", 0}}; return I; }
static string text(const vector<G>& g) { string r = "⟨"; for (auto& e : g) r+= (r.size()>3? "," : "")+(e.own? "⟨\""+e.name+"\","+strf("%d", e.own)+"⟩" : "\""+e.name+"\""); return r+"⟩"; }
static BV given(int own) { return own==99? cb_inc(fnOf("⊢")) : cb_mknum(own); }
static BV spec(const vector<G>& g, int k) { vector<BV> v; for (auto& e : g) { Rep rp; auto rs = repsOf(Val::str(e.name.c_str()), 0); BV n = toB(Val::str(e.name.c_str()), rs[k%rs.size()]); v.push_back(e.own? listOf({n, given(e.own)}) : n); } return listOf(v); }
static const int* find(const Env& e, const string& n) { for (auto& p : e) if (p.first==n) return &p.second; return nullptr; }
static bool grow(const Env& prev, const vector<G>& g, Env& out) { for (auto& e : g) { if (e.own) out.push_back({e.name, e.own}); else { const int* p = find(prev, e.name); if (!p) return false; out.push_back({e.name, *p}); } } return true; }
static void probe(Ex& ex, const string& hist, BV s, const Env& env, bool all) {
  for (auto& n : ALLN) { string src = "•"+n; BV r; ex.op(); ex.compared(); int rc = cb_c1(s, cb_str(src.c_str()), &r); const int* p = find(env, n); bool std = all && n!="foo" && n!="nosuch"; bool state = n=="args" || n=="name" || n=="state"; if (state && (std || (p && !*p))) { if (!rc) ex.fail("%s: •%s without a state is no error", hist.c_str(), n.c_str()); continue; }
    if (rc!=!(p || std)) ex.fail("%s: •%s is %s", hist.c_str(), n.c_str(), rc? cb_err() : "there, though not granted"); if (rc) continue; if (p && *p) { BV w = given(*p); if (!match(ex, r, w)) ex.fail("%s: •%s is not the value given", hist.c_str(), n.c_str()); cb_dec(w); }
    else if (n=="type" || n=="glyph" || n=="repr" || n=="hash") { if (!match(ex, r, fnOf(src.c_str()))) ex.fail("%s: •%s is another function", hist.c_str(), n.c_str()); }
    else if (n=="listsys" && !all) { vector<Val> w; for (auto& q : env) w.push_back(Val::str(q.first.c_str())); if (!same(r, Val::vec(w))) ex.fail("%s: •listsys is %s", hist.c_str(), show(fromB(r)).c_str()); }
    cb_dec(r); }
  for (auto src : {"•type 3", "•Type 3", "•tYPe 3", "⟨•type 3⟩"}) { BV r; ex.op(); ex.compared(); const int* p = find(env, "type"); int rc = cb_c1(s, cb_str(src), &r); bool ok = all || (p && !*p); if (!ok && !p && !rc) ex.fail("%s: %s works", hist.c_str(), src); if (ok && rc) ex.fail("%s: %s: %s", hist.c_str(), src, cb_err()); if (ok) { Val w = Val(1); if (strstr(src, "⟨")) w = Val::vec({Val(1)}); if (!same(r, w)) ex.fail("%s: %s is %s", hist.c_str(), src, show(fromB(r)).c_str()); } if (!rc) cb_dec(r); }
}
static bool make(Ex& ex, BV re, BV sys, const char* repl, BV* s) { static const char* N[] = {"system", "repl"}; static const char* N1[] = {"repl"}; static const char* N0[] = {"other"}; BV ns; if (sys && repl) { BV v[2] = {sys, cb_str(repl)}; ns = cb_ns(2, N, v); } else if (sys) { BV v[1] = {sys}; ns = cb_ns(1, N, v); } else if (repl) { BV v[1] = {cb_str(repl)}; ns = cb_ns(1, N1, v); } else { BV v[1] = {cb_mknum(1)}; ns = cb_ns(1, N0, v); } ex.op(); return !cb_c1(re, ns, s); }
static const char* MODES[] = {nullptr, "none", "strict", "loose"};
static vector<G> choose(Ex& ex, int max) { vector<G> g; int n = ex.pick(max+1); for (int i = 0; i < n; i++) g.push_back(items()[ex.pick(items().size())]); return g; }
static void grants(Ex& ex) {
  Env all; BV s; int k = 0; auto g = choose(ex, ex.thorough? 4 : 3); Env env; string h = "•ReBQN {system⇐"+text(g)+"}"; for (auto& n : {"type", "glyph", "repr", "listsys", "rebqn", "bqn"}) all.push_back({n, 0}); bool ok = grow(all, g, env); for (auto m : MODES) { if (make(ex, REBQN, spec(g, k++), m, &s)!=ok) ex.fail("%s is %s", h.c_str(), ok? cb_err() : "no error"); if (!ok) continue; probe(ex, h, s, env, false); if (k==1) probe(ex, h+" again", s, env, false); cb_dec(s); } ex.outcome(hashS(h)); ex.tick();
}
static void chains(Ex& ex) { // what is granted to a program is all it can grant; •BQN in it grants exactly that
  vector<G> g1 = choose(ex, 2), g2 = choose(ex, 2), g3; int how = ex.pick(3); if (how==2) { g3 = choose(ex, 1); } Env std, e0, e1, e2; for (auto& n : {"type", "glyph", "repr", "listsys", "rebqn", "bqn"}) std.push_back({n, 0}); g1.push_back({"rebqn", 0}); g1.push_back({"bqn", 0}); if (how==2) { g2.push_back({"rebqn", 0}); }
  string h = text(g1); if (!grow(std, g1, e0)) return; BV s1, s2, re; if (!make(ex, REBQN, spec(g1, 1), nullptr, &s1)) ex.fail("•ReBQN %s: %s", h.c_str(), cb_err()); re = call(ex, s1, cb_str("•rebqn"), h); h+= " → "+text(g2); bool ok = grow(e0, g2, e1); if (make(ex, re, spec(g2, 2), how? "loose" : nullptr, &s2)!=ok) ex.fail("%s is %s", h.c_str(), ok? cb_err() : "no error"); ex.compared();
  if (ok) { probe(ex, h, s2, e1, false); if (how==2) { BV re2 = call(ex, s2, cb_str("•rebqn"), h), s3; ok = grow(e1, g3, e2); h+= " → "+text(g3); if (make(ex, re2, spec(g3, 0), nullptr, &s3)!=ok) ex.fail("%s is %s", h.c_str(), ok? cb_err() : "no error"); if (ok) { probe(ex, h, s3, e2, false); cb_dec(s3); } cb_dec(re2); } }
  if (how==1) { BV b = call(ex, s1, cb_str("•bqn"), h); probe(ex, text(g1)+", •BQN", b, e0, false); BV b2 = call(ex, b, cb_str("•bqn"), h); probe(ex, text(g1)+", •BQN of •BQN", b2, e0, false); cb_dec(b2); cb_dec(b); BV i, a; if (make(ex, re, cb_str("all"), nullptr, &a)) { probe(ex, text(g1)+" → \"all\"", a, e0, false); cb_dec(a); } else ex.fail("system⇐\"all\": %s", cb_err()); if (make(ex, re, 0, nullptr, &i)) { probe(ex, text(g1)+" → nothing said", i, e0, false); cb_dec(i); } else ex.fail("no system: %s", cb_err()); if (make(ex, re, cb_str("none"), "strict", &a)) { probe(ex, text(g1)+" → \"none\"", a, {}, false); cb_dec(a); } else ex.fail("system⇐\"none\": %s", cb_err()); }
  probe(ex, text(g1)+" after others", s1, e0, false); cb_dec(re); cb_dec(s1); if (ok || how==2) {} BV r; if (cb_eval("•type 3", &r) || cb_num(r)!=1) ex.fail("•type outside is gone"); ex.outcome(hashS(h)); ex.tick();
}
// --- states and arguments of the wrong kind
static void states(Ex& ex) {
  int who = ex.pick(5), n = ex.pick(5); static const vector<Val> PATH = {Val::str("/"), Val::str("/etc")}, NAME = {Val::str("n.bqn"), Val::str("")}, ARGS = {Val::vec({}), Val::vec({Val::str("a"), Val::str("bc")}), numsV({1, 2}), Val(5)}; BV s; bool ok = true; if (who==0) s = cb_inc(fnOf("•BQN")); else ok = make(ex, REBQN, 0, MODES[who-1], &s); if (!ok) ex.fail("•ReBQN: %s", cb_err()); string h = who? strf("•ReBQN {repl⇐%s}", MODES[who-1]? MODES[who-1] : "…") : "•BQN";
  for (auto& p : PATH) for (auto& nm : NAME) for (auto& a : ARGS) { vector<Val> st = {p, nm, a, Val(1)}; st.resize(n); Val w = Val::vec(st); auto one = [&](const char* src, const Val* want, bool def) { BV r; ex.op(); ex.compared(); int rc = cb_c2(s, toB(w), cb_str(src), &r); string q = show(w)+" "+h+" \""+src+"\""; if (n==4) { if (!rc) ex.fail("%s is no error", q.c_str()); return; } if (rc) ex.fail("%s: %s", q.c_str(), cb_err()); if (!def && !same(r, *want)) ex.fail("%s is %s, expected %s", q.c_str(), show(fromB(r)).c_str(), show(*want).c_str()); cb_dec(r); };
    Val nn = n>1? nm : Val::str(""), aa = n>2? a : Val::vec({}); one("•args", &aa, false); one("•name", &nn, false); Val pp = p; if (n>0) one("•path", &pp, false); Val all = Val::vec({pp, nn, aa}); if (n>0) one("•state", &all, false); Val two = Val(2); one("1+1", &two, false); }
  if (n) return; for (auto& w : {Val(3), Val::chr('a'), Val::arr({1, 2}, {Val::str("/"), Val::str("")}), Val::vec({Val(1)}), Val::vec({Val::str("/"), Val(1)}), Val::vec({numsV({1, 2})}), Val::arr({}, {Val::str("/")}), Val::str("/x")}) { BV r; ex.op(); ex.compared(); if (who>2 || who<2) if (!cb_c2(s, toB(w), cb_str("1"), &r)) ex.fail("%s %s \"1\" is no error", show(w).c_str(), h.c_str()); if (who==2 && !cb_c2(s, toB(w), cb_str("1"), &r)) ex.fail("%s %s \"1\" is no error", show(w).c_str(), h.c_str()); }
  for (auto& x : {Val(3), Val::chr('a'), numsV({1, 2}), Val::arr({1, 2}, {Val::chr('1'), Val::chr('2')}), Val::vec({Val::str("1")}), Val::arr({}, {Val::chr('1')})}) { BV r; ex.op(); ex.compared(); if (!cb_c1(s, toB(x), &r)) ex.fail("%s %s is no error", h.c_str(), show(x).c_str()); if (!cb_c2(s, toB(Val::vec({})), toB(x), &r)) ex.fail("⟨⟩ %s %s is no error", h.c_str(), show(x).c_str()); BV t; if (!cb_c1(REBQN, toB(x), &t)) ex.fail("•ReBQN %s is no error", show(x).c_str()); }
  for (auto m : {"", "Loose", "strict ", "all", "nona"}) { BV r; ex.op(); ex.compared(); if (make(ex, REBQN, 0, m, &r)) ex.fail("•ReBQN {repl⇐\"%s\"} is no error", m); } for (auto& x : {Val(3), Val::chr('a'), numsV({1, 2}), Val::str("al"), Val::str("None"), Val::arr({1, 1}, {Val::str("type")}), Val::vec({Val::vec({Val::str("a")})}), Val::vec({Val::vec({Val::str("a"), Val(1), Val(2)})}), Val::vec({Val(1)})}) { BV r; ex.op(); ex.compared(); if (make(ex, REBQN, toB(x), nullptr, &r)) ex.fail("•ReBQN {system⇐%s} is no error", show(x).c_str()); }
  // how the text is stored; errors in it
  for (auto src : {"2+3", "1+'a'+'b'", "(", "⟨1,\"ab\"⟩", "", "{𝕩+1} 4", "•nosuch", "\"é→😀\""}) { BV w0; int rc0 = cb_eval(src, &w0); for (auto& rp : repsOf(Val::str(src), 0)) { BV r; ex.op(); ex.compared(); int rc = cb_c1(s, toB(Val::str(src), rp), &r); if (!rc!=!rc0) ex.fail("%s \"%s\" [%s]: %s", h.c_str(), src, rp.str().c_str(), rc? cb_err() : "no error"); if (!rc) { if (!match(ex, r, w0)) ex.fail("%s \"%s\" [%s] is %s", h.c_str(), src, rp.str().c_str(), show(fromB(r)).c_str()); cb_dec(r); } } if (!rc0) cb_dec(w0); } cb_dec(s); ex.tick(); ex.outcome(who);
}
// --- sessions: the compiler is one of ours, which is given lines as data and hands out the places of names
static const Prog* cur; static bool broken;
static BQNV comp2(BQNV, BQNV w, BQNV x) { cb_dec(w); cb_dec(x); if (!cur) { Prog p; p.bl = {immBlock(0)}; Body b; b.st = {C(Val(0))}; p.bo = {b}; Compiler c(p); return c.run(); } Compiler c(*cur); if (broken) c.names.push_back("zz"); BV r = c.run(); if (broken) { vector<BV> q; for (size_t i = 0; i < cb_ia(r); i++) q.push_back(cb_inc(cb_item(r, i))); cb_dec(r); cb_dec(q[0]); int32_t bad[] = {0, 0, 0, 0, 7}; size_t s[1] = {5}; q[0] = cb_mkarr(CE_I32, 5, 1, s, bad); BV z = toB(numsV({0, 0, 0, 0, 0})); cb_dec(q[4]); q[4] = listOf({cb_inc(z), z}); return listOf(q); } return r; }
struct Sess { BV f = 0; vector<string> names; std::map<string, Val> v; std::set<string> taken; int fk = -1; }; // fk: which function f holds
static int place(Sess& s, const string& n) { for (size_t i = 0; i < s.names.size(); i++) if (s.names[i]==n) return i; s.names.push_back(n); return s.names.size()-1; }
static BV session(Ex& ex, const char* mode) { static BV F; if (!F) F = bqn_makeBoundFn2(comp2, cb_mknum(0)); BV r, s; cur = nullptr; broken = false; if (cb_c2(COMPOBJ, cb_mknum(0), cb_inc(F), &r)) ex.fail("•CompObj: %s", cb_err()); static const char* N[] = {"repl"}; BV v[1] = {cb_str(mode)}; BV ns = cb_ns(1, N, v); int rc = cb_c1(REBQN, ns, &s); cb_c2(COMPOBJ, cb_mknum(0), cb_native(), &r); if (rc) ex.fail("•ReBQN {repl⇐\"%s\"}: %s", mode, cb_err()); return s; }
enum { L_DEF, L_UPD, L_MOD, L_FAILMOD, L_DEFERR, L_ERRDEF, L_READ, L_PAIR, L_PAIRU, L_BADC, L_F_READ, L_F_WRITE, L_F_DEEP, L_F_LOCAL, L_F_SELF, L_CALL, L_GETF, L_N };
static const char* LN[] = {"←7", "↩+1", "+↩1", "!↩0", "←9⋄!0", ": !0⋄←8", "", "⟨a,b⟩←⟨1,2⟩", "⟨a,b⟩↩⟨3,4⟩", " (a line that does not compile)", "f←{𝕩+a}", "f←{a↩𝕩⋄a}", "f←{{𝕩×a}𝕩+b}", "f←{a←𝕩⋄a+↩b⋄a}", "f←{𝕩<2?1;𝕩×𝕊𝕩-1}", "f 5", "f"};
static void sessions(Ex& ex, int len, int two) {
  static const char* MODE[] = {"strict", "loose"}; Sess S[2]; const char* mode = MODE[two && ex.thorough? ex.pick(2) : 1]; for (int i = 0; i <= two; i++) S[i].f = session(ex, mode); string hist = mode; vector<BV> keep; bool gc = false; uint64_t acc = 17;
  for (int step = 0; step < len; step++) {
    int w = two? ex.pick(2) : 0; Sess& s = S[w]; int k = ex.pick(L_N); string vn = k<=L_READ && ex.pick(2)? "b" : "a"; acc = acc*31+k*2+(vn=="b"); gc = acc%509==0; Prog p; p.bl = {immBlock(0)}; p.bo.reserve(8); p.bl.reserve(8); p.bo.resize(1); auto def = [&](const string& n) { bool d = false; for (auto& q : s.names) d = d || q==n; return d; };
    bool err = false; Val want(0); bool isf = false; vector<string> reads; auto T = [&](const string& n, int d = 0) { int i = place(s, n); return TV(d, i); }; auto R = [&](const string& n, int d) { int i = place(s, n); return V(d, i); }; auto has = [&](const string& n) { return s.v.count(n)>0 && !s.taken.count(n); }; auto known = [&](const string& n) { return s.v.count(n)>0 || s.taken.count(n)>0; };
    N plus = P("+"), fail = P("!"); auto num = [](double d) { return C(Val(d)); }; double dv = 7+step; auto fn = [&](vector<N> st, int vars = 0) { Body b; b.st = st; b.vars = vars; for (int i = 0; i < vars; i++) { b.names.push_back(strf("loc%d", i)); b.exported.push_back(0); } p.bo.push_back(b); p.bl.push_back(fnBlock(p.bo.size()-1)); return Bl(p.bl.size()-1); }; auto& st = p.bo[0].st;
    hist+= strf(" ⋄ %s%s%s", two? (w? "2: " : "1: ") : "", k<=L_READ? vn.c_str() : "", LN[k]); broken = k==L_BADC;
    switch (k) {
      case L_DEF: st = {Def(T(vn), num(dv))}; s.v[vn] = Val(dv); s.taken.erase(vn); want = Val(dv); break;
      case L_UPD: if (!def(vn)) goto out; { auto r = R(vn, 0); st = {Set(T(vn), C2(plus, r, num(1)))}; } err = !has(vn); if (!err) want = s.v[vn] = Val(s.v[vn].n+1); break;
      case L_MOD: if (!def(vn)) goto out; st = {Mod(T(vn), plus, num(1))}; err = !has(vn); if (!err) want = s.v[vn] = Val(s.v[vn].n+1); break;
      case L_FAILMOD: if (!def(vn)) goto out; st = {Call(T(vn), fail)}; err = !has(vn) || s.v[vn].n!=1; if (has(vn)) { if (!err) want = s.v[vn] = Val(1); else { s.taken.insert(vn); } } break;
      case L_DEFERR: st = {Def(T(vn), num(dv)), C1(fail, num(0))}; s.v[vn] = Val(dv); s.taken.erase(vn); err = true; break;
      case L_ERRDEF: { auto t = T(vn); st = {C1(fail, num(0)), Def(t, num(8))}; err = true; break; }
      case L_READ: if (!def(vn)) goto out; st = {R(vn, 0)}; err = !has(vn); if (!err) want = s.v[vn]; break;
      case L_PAIR: { auto ta = T("a"), tb = T("b"); st = {Def(TL({ta, tb}), C(numsV({1., 2.+step})))}; s.v["a"] = Val(1); s.v["b"] = Val(2.+step); s.taken.clear(); want = numsV({1., 2.+step}); break; }
      case L_PAIRU: { if (!def("a") || !def("b")) goto out; auto ta = T("a"), tb = T("b"); st = {Set(TL({ta, tb}), C(numsV({3., 4.+step})))}; if (!known("a")) { err = true; if (known("b")) { s.v["b"] = Val(4.+step); s.taken.erase("b"); hist+= ""; } } else if (!known("b")) err = true; else { s.v["a"] = Val(3); s.v["b"] = Val(4.+step); s.taken.clear(); want = numsV({3., 4.+step}); } if (err) { s.v.erase("?"); } break; }
      case L_BADC: { auto t = T("b"); st = {Def(t, num(1))}; err = true; break; }
      case L_F_READ: case L_F_WRITE: case L_F_DEEP: case L_F_LOCAL: case L_F_SELF: { if (k!=L_F_SELF) place(s, "a"); if (k==L_F_DEEP || k==L_F_LOCAL) place(s, "b"); auto tf = T("f"); N blk; N x = V(0, 1);
        if (k==L_F_READ) blk = fn({C2(plus, x, R("a", 1))}); else if (k==L_F_WRITE) blk = fn({Set(T("a", 1), x), R("a", 1)}); else if (k==L_F_DEEP) { Body in; in.st = {C2(P("×"), V(0, 1), R("a", 2))}; p.bo.push_back(in); p.bl.push_back(fnBlock(p.bo.size()-1)); N ib = Bl(p.bl.size()-1); blk = fn({C1(ib, C2(plus, x, R("b", 1)))}); } else if (k==L_F_LOCAL) blk = fn({Def(TV(0, 3), x), Mod(TV(0, 3), plus, R("b", 1)), V(0, 3)}, 1); else blk = fn({C2(P("×"), x, num(2))});
        st = {Def(tf, blk)}; s.fk = k; isf = true; break; }
      case L_CALL: { if (!def("f") || s.fk<0) goto out; st = {C1(R("f", 0), num(5))}; break; }
      case L_GETF: { if (!def("f") || s.fk<0) goto out; st = {R("f", 0)}; isf = true; break; }
    }
    if (k==L_PAIRU && err) { s.fk = -1; goto out; } // which part of a failing assignment takes place is not judged
    { Body& b = p.bo[0]; b.vars = s.names.size(); b.names = s.names; b.exported.assign(b.vars, 0); cur = &p; int times = k==L_CALL? 3 : 1; for (int t = 0; t < times; t++) { BV r; ex.op(); ex.compared();
        if (k==L_CALL) { err = false; switch (s.fk) { case L_F_READ: err = !has("a"); if (!err) want = Val(5+s.v["a"].n); break; case L_F_WRITE: err = !known("a"); if (!err) { s.v["a"] = Val(5); s.taken.erase("a"); want = Val(5); } break; case L_F_DEEP: err = !has("a") || !has("b"); if (!err) want = Val((5+s.v["b"].n)*s.v["a"].n); break; case L_F_LOCAL: err = !has("b"); if (!err) want = Val(5+s.v["b"].n); break; default: want = Val(10); } }
        int rc = cb_c1(s.f, cb_str("L"), &r); if (!rc!=!err) ex.fail("%s: %s", hist.c_str(), rc? cb_err() : "no error"); if (gc) cb_gc(); if (rc) continue; if (isf) { if (cb_kind(r)!=CK_FUN) ex.fail("%s is no function", hist.c_str()); keep.push_back(r); continue; } if (!same(r, want)) ex.fail("%s is %s, expected %s", hist.c_str(), show(fromB(r)).c_str(), show(want).c_str()); cb_dec(r); } cur = nullptr; broken = false; }
  }
  out: cur = nullptr; broken = false;
  for (int w = 0; w <= two; w++) { if (gc) cb_gc(); cb_dec(S[w].f); if (gc) cb_gc(); } if (!two) { Sess& s = S[0]; for (auto f : keep) if (f==keep.back() && s.fk>=0) { BV r; ex.op(); ex.compared(); auto ok = [&](const char* n) { return s.v.count(n) && !s.taken.count(n); }; int rc = cb_c1(f, cb_mknum(5), &r); bool err = s.fk==L_F_READ? !ok("a") : s.fk==L_F_WRITE? !s.v.count("a") && !s.taken.count("a") : s.fk==L_F_DEEP? !ok("a") || !ok("b") : s.fk==L_F_LOCAL? !ok("b") : false; if (!rc!=!err) ex.fail("%s, after the session, f 5: %s", hist.c_str(), rc? cb_err() : "no error"); if (rc) break; Val want(s.fk==L_F_READ? 5+s.v["a"].n : s.fk==L_F_WRITE? 5 : s.fk==L_F_DEEP? (5+s.v["b"].n)*s.v["a"].n : s.fk==L_F_LOCAL? 5+s.v["b"].n : 10); if (!same(r, want)) ex.fail("%s, after the session, f 5 is %s, expected %s", hist.c_str(), show(fromB(r)).c_str(), show(want).c_str()); cb_dec(r); break; } }
  for (auto f : keep) cb_dec(f); ex.outcome(hashS(hist)); ex.tick();
}
static void one(Ex& ex) { sessions(ex, ex.thorough? 4 : 3, 0); } static void both(Ex& ex) { sessions(ex, 3, 1); }
int main(int argc, char** argv) {
  mc::Config c; c.property = "C33"; c.assumptions = {"the compiler that sessions call is the harness's own, as this build has none that keeps names; of an assignment to several names that fails, the names are not judged"};
  c.init = []() { cb_init(); REBQN = fnOf("•ReBQN"); COMPOBJ = fnOf("•CompObj"); MATCH = fnOf("≡"); for (auto f : {"•type", "•glyph", "•repr", "•hash", "•BQN", "⊢", "+", "×", "!"}) fnOf(f); };
  c.perRun = gcEvery(256);
  c.sc = {{"grants", 3, grants, 3, "every list of up to 3 (4) of 9 grants × 4 modes × 13 names"}, {"chains", 4, chains, 3, "grants within grants, three levels"}, {"states", 2, states, 3, "•BQN and 4 kinds of sessions × states of 0 to 4 items; wrong arguments"}, {"sessions", 3, one, 3, "every sequence of 3 (4) of 24 lines"}, {"two", 4, both, 3, "two sessions in turns, 3 lines (in two modes)"}};
  return mainMC(argc, argv, c);
}
