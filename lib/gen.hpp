// Shared by the checks: functions of the implementation, enumerated representations, the call-and-compare step.
#pragma once
#include "prims.hpp"
#include <unordered_map>

namespace bq {
using mc::Ex;
typedef vector<size_t> Sh;

inline BV fnOf(const string& src) { // the value of a BQN expression, kept for the whole run
  static std::map<string, BV> m;
  auto it = m.find(src); if (it!=m.end()) return it->second;
  BV r; if (cb_eval(src.c_str(), &r)) { fprintf(stderr, "cannot evaluate %s: %s\n", src.c_str(), cb_err()); _exit(4); }
  return m[src] = r;
}
inline BV derive1(const char* m, BV f) { BV r; if (cb_m1(fnOf(m), cb_inc(f), &r)) { fprintf(stderr, "cannot derive %s: %s\n", m, cb_err()); _exit(4); } return r; }
inline BV derive2(const char* m, BV f, BV g) { BV r; if (cb_m2(fnOf(m), cb_inc(f), cb_inc(g), &r)) { fprintf(stderr, "cannot derive %s: %s\n", m, cb_err()); _exit(4); } return r; }

inline int trueFlags(const Val& v) { // cached properties that hold of v: ascending=2, descending=4 (not claimed for lists holding NaN, functions or empty arrays)
  if (!v.isArr() || v.rank()!=1 || v.ia()==0) return 0;
  bool up = true, dn = true; std::function<bool(const Val&)> ok = [&](const Val& a) { if (a.isArr()) { for (auto& e : a.it()) if (!ok(e)) return false; return a.ia()>0; } return a.isChr() || (a.isNum() && a.n==a.n); };
  for (size_t i = 0; i < v.ia(); i++) { const Val& a = v.it()[i]; if (!ok(a)) return 0; if (i) { int c = cmpV(v.it()[i-1], a); if (c>0) up = false; if (c<0) dn = false; } }
  return (up?2:0)|(dn?4:0);
}
// level 0: one per element type; 1: also shared, slices, fills; 2: also every slice offset class and flags
inline vector<Rep> repsOf(const Val& v, int level) {
  if (!v.isArr()) return {Rep{}};
  vector<Rep> r; vector<int> es = allElts(v); int me = minElt(v);
  if (v.ia()==0 && v.fill()) { es.clear(); const Val& f = *v.fill(); if (f.isNum()) es = {CE_BIT, CE_I8, CE_I16, CE_I32, CE_F64}; else if (f.isChr()) es = {CE_C8, CE_C16, CE_C32}; es.push_back(CE_B); }
  if (v.a->fs==F_NONE) es = {CE_B};
  for (int e : es) {
    bool fa = v.fill()!=nullptr;
    r.push_back(Rep{.elt=e, .fillarr = e==CE_B && fa});
    if (level>=1 && (e==me || e==CE_B || level>=2)) {
      r.push_back(Rep{.elt=e, .shared=true, .fillarr = e==CE_B && fa});
      if (v.ia()>0 || level>=2) r.push_back(Rep{.elt=e, .slice=3, .fillarr = e==CE_B && fa});
      if (level>=2 && e==CE_BIT) for (int k : {1, 8, 64}) r.push_back(Rep{.elt=e, .slice=k});
      if (level>=2) r.push_back(Rep{.elt=e, .slice=2, .shared=true, .fillarr = e==CE_B && fa});
    }
    if (level>=1 && e==CE_B && !fa && v.ia()>0 && v.a->fs!=F_NONE) r.push_back(Rep{.elt=e, .fillarr=true});
  }
  int fl = trueFlags(v);
  if (level>=1 && fl) { r.push_back(Rep{.elt=me, .flags=fl}); if (level>=2) for (int e : es) if (e!=CE_B && e!=me) r.push_back(Rep{.elt=e, .flags=fl}); }
  return r;
}
struct Outcome { bool err = false, unspec = false; Val v; };
template<class F> inline Outcome outcomeOf(F f) {
  Outcome o;
  try { o.v = f(); } catch (Err&) { o.err = true; } catch (Unspec&) { o.unspec = true; }
  return o;
}
inline string showRes(int rc, BV r) { return rc? string("error \"")+cb_err()+"\"" : show(fromB(r)); }
inline string showOut(const Outcome& o) { return o.err? "an error" : o.unspec? "anything" : show(o.v); }

// the result r (rc==0) or error against the expected outcome; consumes r
inline void judge(Ex& ex, const string& what, int rc, BV r, const Outcome& o, bool looseErr = false) {
  ex.op(); ex.compared();
  if (rc) {
    if (!o.err && !o.unspec) ex.fail("%s\n  gives an error: %s\n  expected %s", what.c_str(), cb_err(), show(o.v).c_str());
    ex.outcome(0x77); return;
  }
  string why;
  if (!wellFormed(r, &why)) ex.fail("%s\n  gives a malformed value: %s\n  expected %s", what.c_str(), why.c_str(), showOut(o).c_str());
  if (o.err && !looseErr) ex.fail("%s\n  gives %s\n  expected an error", what.c_str(), show(fromB(r)).c_str());
  if (!o.err && !o.unspec && !same(r, o.v)) ex.fail("%s\n  gives    %s (stored as %s)\n  expected %s", what.c_str(), show(fromB(r)).c_str(), cb_kind(r)==CK_ARR? eltName(cb_elt(r)) : "an atom", show(o.v).c_str());
  cb_dec(r);
}
inline void unchanged(Ex& ex, const string& what, BV x, const Val& v, const char* nm) {
  string why;
  if (!same(x, v)) ex.fail("%s\n  changed its shared argument %s to %s", what.c_str(), nm, show(fromB(x)).c_str());
  if (!wellFormed(x, &why)) ex.fail("%s\n  left its shared argument %s malformed: %s", what.c_str(), nm, why.c_str());
}
// in fault builds only the first few calls of each kind are made
#ifdef FAULT
inline bool seenKind(uint64_t k) { if (mc::current && mc::current->replay) return false; static std::unordered_map<uint64_t,int> m; return ++m[k]>2; }
inline uint64_t kindOfArg(const Val& v, const Rep& r) { if (!v.isArr()) return v.isNum()? 1+(v.n<0)+2*(v.n!=floor(v.n))+4*(fabs(v.n)>1e6) : 9; uint64_t l = 0, n = v.ia(); while (n) { l++; n>>= 1; } return (uint64_t)10+l+((uint64_t)std::min<size_t>(v.rank(), 3)<<6)+((uint64_t)(r.elt+1)<<8)+((uint64_t)r.slice<<13)+((uint64_t)r.shared<<21)+((uint64_t)r.fillarr<<22)+((uint64_t)r.flags<<23)+((uint64_t)(minElt(v)+1)<<28); }
#define SKIP_SEEN(K) do { if (seenKind(K)) return; } while (0)
#else
#define SKIP_SEEN(K)
#endif
inline uint64_t hashS(const string& s) { uint64_t h = 7; for (unsigned char c : s) h = (h^c)*0x100000001b3ull; return h; }
// call f on x in the given representation and compare
inline void call1(Ex& ex, const string& name, BV f, const Val& x, const Rep& rx, const Outcome& o, bool looseErr = false) {
  SKIP_SEEN((hashS(name)*3+o.err)*0x9E3779B97F4A7C15ull+kindOfArg(x, rx));
  BV b = toB(x, rx), keep = 0, r; bool sh = rx.shared && x.isArr();
  if (sh) keep = cb_inc(b);
  int rc = cb_c1(f, b, &r);
  auto what = [&]() { return strf("%s %s   [%s]", name.c_str(), show(x).c_str(), rx.str().c_str()); };
  static thread_local string w; w = ""; 
  // the description is only built when needed
  struct Lazy {};
  if (rc? (o.err||o.unspec) : (!o.err||looseErr)) {
    string why;
    if (rc || (wellFormed(r, &why) && (o.unspec || o.err || same(r, o.v)))) { ex.op(); ex.compared(); if (!rc) cb_dec(r); goto ok; }
  }
  judge(ex, what(), rc, r, o, looseErr);
  ok:
  if (ex.verbose) ex.say("%s → %s", what().c_str(), showOut(o).c_str());
  if (sh) { string why; if (!same(keep, x) || !wellFormed(keep, &why)) unchanged(ex, what(), keep, x, "𝕩"); cb_dec(keep); }
}
inline void call2(Ex& ex, const string& name, BV f, const Val& w, const Rep& rw, const Val& x, const Rep& rx, const Outcome& o, bool looseErr = false) {
  SKIP_SEEN(((hashS(name)*3+o.err)*0x9E3779B97F4A7C15ull+kindOfArg(x, rx))*0x9E3779B97F4A7C15ull+kindOfArg(w, rw));
  BV a = toB(w, rw), b = toB(x, rx), ka = 0, kb = 0, r; bool sa = rw.shared && w.isArr(), sb = rx.shared && x.isArr();
  if (sa) ka = cb_inc(a); if (sb) kb = cb_inc(b);
  int rc = cb_c2(f, a, b, &r);
  auto what = [&]() { return strf("%s %s %s   [𝕨 %s, 𝕩 %s]", show(w).c_str(), name.c_str(), show(x).c_str(), rw.str().c_str(), rx.str().c_str()); };
  if (rc? (o.err||o.unspec) : (!o.err||looseErr)) {
    string why;
    if (rc || (wellFormed(r, &why) && (o.unspec || o.err || same(r, o.v)))) { ex.op(); ex.compared(); if (!rc) cb_dec(r); goto ok; }
  }
  judge(ex, what(), rc, r, o, looseErr);
  ok:
  if (ex.verbose) ex.say("%s → %s", what().c_str(), showOut(o).c_str());
  if (sa) { string why; if (!same(ka, w) || !wellFormed(ka, &why)) unchanged(ex, what(), ka, w, "𝕨"); cb_dec(ka); }
  if (sb) { string why; if (!same(kb, x) || !wellFormed(kb, &why)) unchanged(ex, what(), kb, x, "𝕩"); cb_dec(kb); }
}
// all representations of the arguments
inline void all1(Ex& ex, const string& name, BV f, const Val& x, const Outcome& o, int level, bool looseErr = false) {
  ex.outcome(o.err? 1 : o.unspec? 2 : hashV(o.v));
  for (auto& r : repsOf(x, level)) { call1(ex, name, f, x, r, o, looseErr); ex.tick(); }
}
inline void all2(Ex& ex, const string& name, BV f, const Val& w, const Val& x, const Outcome& o, int lw, int lx, bool looseErr = false) {
  ex.outcome(o.err? 1 : o.unspec? 2 : hashV(o.v));
  vector<Rep> rw = repsOf(w, lw), rx = repsOf(x, lx);
  for (auto& a : rw) { for (auto& b : rx) call2(ex, name, f, w, a, x, b, o, looseErr); ex.tick(); }
}
// full product at level 0, and each richer representation of one side against a plain other side
inline void star2(Ex& ex, const string& name, BV f, const Val& w, const Val& x, const Outcome& o, int level, bool looseErr = false) {
  ex.outcome(o.err? 1 : o.unspec? 2 : hashV(o.v));
  vector<Rep> w0 = repsOf(w, 0), x0 = repsOf(x, 0), w1 = repsOf(w, level), x1 = repsOf(x, level);
  for (auto& a : w0) for (auto& b : x0) call2(ex, name, f, w, a, x, b, o, looseErr);
  ex.tick();
  for (auto& a : w1) call2(ex, name, f, w, a, x, x0[0], o, looseErr);
  for (auto& b : x1) call2(ex, name, f, w, w0[0], x, b, o, looseErr);
  if (w1.size()>1 && x1.size()>1) for (size_t i = 0; i < std::max(w1.size(), x1.size()); i++) call2(ex, name, f, w, w1[i%w1.size()], x, x1[i%x1.size()], o, looseErr);
  ex.tick();
}
// each representation of one side against the plain other side only
inline void cross2(Ex& ex, const string& name, BV f, const Val& w, const Val& x, const Outcome& o, int lw, int lx, bool looseErr = false) {
  ex.outcome(o.err? 1 : o.unspec? 2 : hashV(o.v));
  vector<Rep> rw = repsOf(w, lw), rx = repsOf(x, lx);
  for (auto& a : rw) { call2(ex, name, f, w, a, x, rx[0], o, looseErr); ex.tick(); }
  for (size_t i = 1; i < rx.size(); i++) { call2(ex, name, f, w, rw[0], x, rx[i], o, looseErr); ex.tick(); }
  if (rw.size()>1 && rx.size()>1) call2(ex, name, f, w, rw.back(), x, rx.back(), o, looseErr);
}
inline std::function<void()> gcEvery(int n) { // errors leave their temporaries to the collector
  return [n, k = 0, next = 0.0]() mutable { if (++k%n) return; double t = mc::now(); if (t<next) return; cb_gc(); double e = mc::now(); next = e+10*(e-t); }; // at most a tenth of the time
}
// what earlier results must not have changed: the values every computation shares
inline void sharedIntact(Ex& ex) {
  static vector<std::pair<BV, Val>> probes; 
  if (probes.empty()) { BV z; z = toB(Val::vec({Val(0)})); for (auto& x : vector<Val>{Val::vec({Val(1)}), Val::vec({Val::chr('a')}), Val::vec({Val::vec({Val(1)})})}) { probes.push_back({toB(x), x}); } probes.push_back({z, Val()}); }
  static BV rep = fnOf("/");
  for (size_t i = 0; i+1<probes.size(); i++) { BV r; int rc = cb_c2(rep, cb_inc(probes.back().first), cb_inc(probes[i].first), &r); if (rc || cb_kind(r)!=CK_ARR || cb_rank(r)!=1 || cb_ia(r)!=0) ex.fail("after these operations ⟨0⟩/%s gives %s, not an empty list", show(probes[i].second).c_str(), rc? "an error" : show(fromB(r)).c_str()); cb_dec(r); }
}
inline Val numsV(std::initializer_list<double> l) { vector<Val> r; for (double d : l) r.push_back(Val(d)); return Val::vec(r); }
inline Val shaped(Sh s, vector<Val> it) { return Val::arr(std::move(s), std::move(it)); }
// n items from a deterministic sequence
inline uint64_t lcg(uint64_t& s) { s = s*6364136223846793005ull+1442695040888963407ull; return s>>33; }
enum { FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8, FAM_C16, FAM_C32, FAM_MIX, FAM_NEST, FAM_N };
inline const char* famName(int f) { static const char* n[] = {"bits","i8","i16","i32","f64","c8","c16","c32","mixed","nested"}; return n[f]; }
inline Val famItem(int fam, uint64_t k, uint64_t range) { // the k-th item of a family, drawn from `range` distinct values
  uint64_t q = range? k%range : k;
  switch (fam) {
    case FAM_BIT: return Val((int)(q&1));
    case FAM_I8: return Val((double)((long)(q%256)-(range>=128? 128 : 3)));
    case FAM_I16: return Val((double)((long)((q*257)%65536)-32768));
    case FAM_I32: return Val((double)((long)((q*16843009ull)%4294967296ull)-2147483648ll));
    case FAM_F64: { double d = (double)q*0.5-1.25; return Val(q%5==4? d*1e10 : d); }
    case FAM_C8: return Val::chr('a'+q%150);
    case FAM_C16: return Val::chr(0x100+(q*97)%0xF000);
    case FAM_C32: return Val::chr(0x10000+(q*1009)%0xFFFFF);
    case FAM_MIX: return q%3==0? Val((double)q) : q%3==1? Val::chr('a'+q%50000) : Val((double)q+0.5);
    default: return q%4==0? Val((double)q) : q%4==1? Val::vec({Val((double)(q%7)), Val(2.0)}) : q%4==2? Val::str("ab") : Val::arr({1,2}, {Val((double)q), Val::chr('z')});
  }
}
inline Val famArr(int fam, Sh sh, uint64_t range, uint64_t seed) {
  vector<Val> r; size_t n = prod(sh); uint64_t s = seed*0x9E3779B97F4A7C15ull+12345;
  for (size_t i = 0; i < n; i++) r.push_back(famItem(fam, lcg(s)>>3, range));
  return Val::arr(std::move(sh), std::move(r));
}
}
#ifdef FAULT
#include "fault.hpp"
#endif
