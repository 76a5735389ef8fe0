// Reference values: what a BQN value is, independently of how the implementation stores it.
#pragma once
#include "bridge.h"
#include "explore.hpp"
#include <algorithm>
#include <cmath>
#include <limits>

namespace bq {
using std::string; using std::vector; using mc::strf;
struct ArrM;
struct Val {
  enum K : uint8_t { NUM, CHR, ARR, FUN } k = NUM; // FUN: an opaque value held by the implementation (n holds the id)
  union { double n; uint32_t c; ArrM* a; };
  Val() : n(0) {}
  Val(double x) : k(NUM), n(x) {}
  Val(int x) : k(NUM), n(x) {}
  Val(long x) : k(NUM), n((double)x) {}
  Val(unsigned long x) : k(NUM), n((double)x) {}
  Val(unsigned x) : k(NUM), n(x) {}
  Val(bool x) : k(NUM), n(x) {}
  inline Val(const Val& o); inline Val(Val&& o) noexcept; inline ~Val();
  inline Val& operator=(const Val& o); inline Val& operator=(Val&& o) noexcept;
  static Val chr(uint32_t c) { Val r; r.k = CHR; r.n = 0; r.c = c; return r; }
  static inline Val arr(vector<size_t> sh, vector<Val> it);
  static inline Val vec(vector<Val> it);
  static inline Val str(const char* s);
  bool isNum() const { return k==NUM; } bool isChr() const { return k==CHR; } bool isArr() const { return k==ARR; }
  inline const vector<size_t>& sh() const; inline const vector<Val>& it() const;
  inline size_t rank() const; inline size_t ia() const;
  inline const Val* fill() const;
  inline Val withFill(const Val& f) const;
  inline Val noFill() const;
};
enum { F_UNKNOWN, F_NONE, F_KNOWN };
struct ArrM { int refc = 1; vector<size_t> sh; vector<Val> it; int fs = F_UNKNOWN; Val fl; };
inline Val::Val(const Val& o) : k(o.k), n(o.n) { if (k==ARR) a->refc++; }
inline Val::Val(Val&& o) noexcept : k(o.k), n(o.n) { o.k = NUM; o.n = 0; }
inline Val::~Val() { if (k==ARR && --a->refc==0) delete a; }
inline Val& Val::operator=(const Val& o) { Val t(o); std::swap(k, t.k); std::swap(n, t.n); return *this; }
inline Val& Val::operator=(Val&& o) noexcept { std::swap(k, o.k); std::swap(n, o.n); return *this; }
inline Val Val::arr(vector<size_t> sh, vector<Val> it) { Val r; r.k = ARR; r.a = new ArrM(); r.a->sh = std::move(sh); r.a->it = std::move(it); return r; }
inline Val Val::vec(vector<Val> it) { size_t n = it.size(); return arr({n}, std::move(it)); }
inline const vector<size_t>& Val::sh() const { static const vector<size_t> e; return k==ARR? a->sh : e; }
inline const vector<Val>& Val::it() const { return a->it; }
inline size_t Val::rank() const { return k==ARR? a->sh.size() : 0; }
inline size_t Val::ia() const { return k==ARR? a->it.size() : 1; }
inline const Val* Val::fill() const { return k==ARR && a->fs==F_KNOWN? &a->fl : nullptr; }
inline Val Val::withFill(const Val& f) const { Val r = arr(a->sh, a->it); r.a->fs = F_KNOWN; r.a->fl = f; return r; }
inline Val Val::noFill() const { Val r = arr(a->sh, a->it); r.a->fs = F_NONE; return r; }
inline vector<uint32_t> decodeUtf8(const char* s) {
  vector<uint32_t> r; const unsigned char* p = (const unsigned char*)s;
  while (*p) {
    uint32_t c = *p++;
    int k = c<0x80? 0 : c<0xE0? 1 : c<0xF0? 2 : 3;
    if (k) c&= 0x3F>>k;
    while (k--) c = c<<6 | (*p++&63);
    r.push_back(c);
  }
  return r;
}
inline string encUtf8(uint32_t q) {
  string r;
  if (q<0x80) r+= (char)q;
  else if (q<0x800) { r+= (char)(0xC0|q>>6); r+= (char)(0x80|(q&63)); }
  else if (q<0x10000) { r+= (char)(0xE0|q>>12); r+= (char)(0x80|(q>>6&63)); r+= (char)(0x80|(q&63)); }
  else { r+= (char)(0xF0|q>>18); r+= (char)(0x80|(q>>12&63)); r+= (char)(0x80|(q>>6&63)); r+= (char)(0x80|(q&63)); }
  return r;
}
inline Val Val::str(const char* s) { vector<Val> v; for (uint32_t c : decodeUtf8(s)) v.push_back(chr(c)); return vec(std::move(v)); }

inline size_t prod(const vector<size_t>& s, size_t b=0, size_t e=~(size_t)0) { size_t r = 1; if (e>s.size()) e = s.size(); for (size_t i = b; i < e; i++) r*= s[i]; return r; }
inline vector<size_t> concat(vector<size_t> a, const vector<size_t>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline bool numEq(double a, double b) { return a==b || (a!=a && b!=b); }

// shows a value in BQN-like notation
inline string show(const Val& v, size_t lim = 60) {
  if (v.isNum()) {
    double d = v.n; if (d!=d) return "NaN"; string s;
    if (d==(long long)d && std::fabs(d)<1e15) s = strf("%.0f", d==0? 0.0 : d); else s = strf("%.17g", d);
    if (std::isinf(d)) s = d<0? "-∞" : "∞";
    if (s[0]=='-') s = "¯"+s.substr(1); return s;
  }
  if (v.isChr()) return v.c>=32 && v.c!=127? "'"+encUtf8(v.c)+"'" : strf("@+%u", v.c);
  if (v.k==Val::FUN) return "(function)";
  bool str = v.rank()==1 && v.ia()>0;
  for (auto& x : v.it()) if (!x.isChr() || x.c<32 || x.c=='"') { str = false; break; }
  string r;
  if (v.rank()!=1) { for (size_t i = 0; i < v.rank(); i++) r+= strf(i?"‿%zu":"%zu", v.sh()[i]); r+= v.rank()==0? "<" : "⥊"; }
  if (str) { r+= "\""; size_t i = 0; for (auto& x : v.it()) { if (i++>=lim) { r+= strf("…(%zu)", v.ia()); break; } r+= encUtf8(x.c); } return r+"\""; }
  r+= "⟨"; size_t i = 0;
  for (auto& x : v.it()) { if (i) r+= ","; if (i++>=lim) { r+= strf("…(%zu items)", v.ia()); break; } r+= show(x, lim); }
  r+= "⟩";
  return r;
}

// element types able to hold exactly the items of v
inline bool fits(int elt, const Val& v) {
  for (auto& x : v.it()) {
    switch (elt) {
      case CE_B: break;
      case CE_F64: if (!x.isNum()) return false; break;
      case CE_BIT: if (!x.isNum() || !(x.n==0||x.n==1)) return false; break;
      case CE_I8:  if (!x.isNum() || !(x.n>=-128 && x.n<=127 && x.n==std::trunc(x.n))) return false; break;
      case CE_I16: if (!x.isNum() || !(x.n>=-32768 && x.n<=32767 && x.n==std::trunc(x.n))) return false; break;
      case CE_I32: if (!x.isNum() || !(x.n>=-2147483648.0 && x.n<=2147483647.0 && x.n==std::trunc(x.n))) return false; break;
      case CE_C8:  if (!x.isChr() || x.c>255) return false; break;
      case CE_C16: if (!x.isChr() || x.c>65535) return false; break;
      case CE_C32: if (!x.isChr()) return false; break;
    }
    if (elt<=CE_I32 && x.n==0 && std::signbit(x.n)) return false; // a negative zero has to stay one
  }
  return true;
}
inline int minElt(const Val& v) {
  if (v.ia()==0) return CE_BIT;
  for (int e : {CE_BIT, CE_I8, CE_I16, CE_I32, CE_F64}) if (fits(e, v)) return e;
  for (int e : {CE_C8, CE_C16, CE_C32}) if (fits(e, v)) return e;
  return CE_B;
}
inline vector<int> allElts(const Val& v) { vector<int> r; for (int e = 0; e <= CE_B; e++) if (fits(e, v)) r.push_back(e); return r; }
inline const char* eltName(int e) { static const char* n[] = {"bit","i8","i16","i32","f64","c8","c16","c32","B"}; return n[e]; }

// how a value is stored
struct Rep {
  int elt = -1;        // CE_*, -1: the smallest
  int slice = 0;       // 0: own storage; k>0: a slice starting at offset k of a larger array with different contents around
  bool shared = false; // a second reference is held
  bool fillarr = false;// a boxed array that records a fill (elt==CE_B)
  int flags = 0;       // squeezed=1, ascending=2, descending=4 (only ever set when true)
  string str() const { return strf("%s%s%s%s%s", elt<0?"min":eltName(elt), fillarr?"+fill":"", slice? strf("/slice%d",slice).c_str() : "", shared?"/shared":"", flags? strf("/flags%d",flags).c_str():""); }
};

Val NULLV();
inline BV toB(const Val& v, const Rep& rep = Rep());
inline const Val protoFill(const Val& v) { // fill derived from one element
  if (v.isNum()) return Val(0);
  if (v.isChr()) return Val::chr(' ');
  vector<Val> it; for (auto& x : v.it()) it.push_back(protoFill(x));
  return Val::arr(v.sh(), it);
}
template<class T> inline BV packT(int elt, const Val& v, const Rep& rep, size_t pre, size_t post, T junk, T(*conv)(const Val&)) {
  size_t n = v.ia(); vector<T> d(n+pre+post+1, junk);
  for (size_t i = 0; i < n; i++) d[pre+i] = conv(v.it()[i]);
  size_t tot = n+pre+post; size_t s1[1] = {tot};
  if (!pre && !post) return cb_mkarr(elt, n, v.rank(), v.sh().data(), d.data());
  return cb_slice(cb_mkarr(elt, tot, 1, s1, d.data()), pre, n, v.rank(), v.sh().data());
}
inline BV toB(const Val& v, const Rep& rep) {
  if (v.isNum()) return cb_mknum(v.n);
  if (v.isChr()) return cb_mkchr(v.c);
  int e = rep.elt<0? minElt(v) : rep.elt;
  if (rep.elt<0 && v.ia()==0 && v.fill()) { if (v.fill()->isChr()) e = CE_C8; else if (v.fill()->isArr()) e = CE_B; }
  if (rep.elt<0 && v.ia()==0 && v.a->fs==F_NONE) e = CE_B;
  size_t pre = rep.slice, post = rep.slice? 3 : 0, n = v.ia();
  BV r;
  switch (e) {
    case CE_BIT: {
      vector<uint64_t> d((n+pre+post+63)/64+1, 0xAAAAAAAAAAAAAAAAull);
      for (size_t i = 0; i < n; i++) { size_t p = pre+i; uint64_t b = v.it()[i].n!=0; d[p>>6] = (d[p>>6] & ~(1ull<<(p&63))) | b<<(p&63); }
      if (pre+post) { size_t s1[1] = {n+pre+post}; r = cb_slice(cb_mkarr(e, n+pre+post, 1, s1, d.data()), pre, n, v.rank(), v.sh().data()); }
      else r = cb_mkarr(e, n, v.rank(), v.sh().data(), d.data());
      break;
    }
    case CE_I8:  r = packT<int8_t >(e, v, rep, pre, post, -77,   [](const Val& x) { return (int8_t )x.n; }); break;
    case CE_I16: r = packT<int16_t>(e, v, rep, pre, post, -7777, [](const Val& x) { return (int16_t)x.n; }); break;
    case CE_I32: r = packT<int32_t>(e, v, rep, pre, post, -77777,[](const Val& x) { return (int32_t)x.n; }); break;
    case CE_F64: r = packT<double >(e, v, rep, pre, post, -7.5,  [](const Val& x) { return x.n; }); break;
    case CE_C8:  r = packT<uint8_t >(e, v, rep, pre, post, 'J', [](const Val& x) { return (uint8_t )x.c; }); break;
    case CE_C16: r = packT<uint16_t>(e, v, rep, pre, post, 'J', [](const Val& x) { return (uint16_t)x.c; }); break;
    case CE_C32: r = packT<uint32_t>(e, v, rep, pre, post, 'J', [](const Val& x) { return (uint32_t)x.c; }); break;
    default: {
      size_t tot = n+pre+post; vector<BV> d(tot+1, cb_mknum(-7.5));
      for (size_t i = 0; i < n; i++) d[pre+i] = toB(v.it()[i], Rep{.shared=false});
      bool fa = rep.fillarr || (v.isArr() && v.a->fs==F_KNOWN);
      size_t s1[1] = {tot};
      const size_t* sh = pre+post? s1 : v.sh().data(); int rk = pre+post? 1 : (int)v.rank();
      if (fa) {
        Val f = v.fill()? *v.fill() : n? protoFill(v.it()[0]) : Val(0);
        r = cb_mkfillarr(tot, rk, sh, d.data(), toB(f));
      } else r = cb_mkarr(CE_B, tot, rk, sh, d.data());
      if (pre+post) r = cb_slice(r, pre, n, v.rank(), v.sh().data());
    }
  }
  if (rep.flags) cb_setflags(r, rep.flags);
  return r;
}

// the implementation's value, read back
inline Val fromB(BV b, bool* opaque = nullptr) {
  switch (cb_kind(b)) {
    case CK_NUM: return Val(cb_num(b));
    case CK_CHR: return Val::chr(cb_chr(b));
    case CK_ARR: {
      size_t n = cb_ia(b); int rk = cb_rank(b); const size_t* s = cb_shape(b);
      vector<Val> it; it.reserve(n);
      const void* p = cb_elt(b)==CE_B? nullptr : cb_raw(b);
      switch (cb_elt(b)) {
        case CE_BIT: for (size_t i = 0; i < n; i++) it.emplace_back((int)(((const uint64_t*)p)[i>>6]>>(i&63)&1)); break;
        case CE_I8:  for (size_t i = 0; i < n; i++) it.emplace_back((int)((const int8_t *)p)[i]); break;
        case CE_I16: for (size_t i = 0; i < n; i++) it.emplace_back((int)((const int16_t*)p)[i]); break;
        case CE_I32: for (size_t i = 0; i < n; i++) it.emplace_back((int)((const int32_t*)p)[i]); break;
        case CE_F64: for (size_t i = 0; i < n; i++) it.emplace_back(((const double*)p)[i]); break;
        case CE_C8:  for (size_t i = 0; i < n; i++) it.push_back(Val::chr(((const uint8_t *)p)[i])); break;
        case CE_C16: for (size_t i = 0; i < n; i++) it.push_back(Val::chr(((const uint16_t*)p)[i])); break;
        case CE_C32: for (size_t i = 0; i < n; i++) it.push_back(Val::chr(((const uint32_t*)p)[i])); break;
        default: for (size_t i = 0; i < n; i++) it.push_back(fromB(cb_item(b, i), opaque));
      }
      Val r = Val::arr(vector<size_t>(s, s+rk), std::move(it));
      BV f; if (cb_fill(b, &f)) { r.a->fs = F_KNOWN; bool o; r.a->fl = fromB(f, &o); } else r.a->fs = F_NONE;
      return r;
    }
    default: { if (opaque) *opaque = true; Val r; r.k = Val::FUN; r.n = 0; return r; }
  }
}
// equality as a program sees it: shape and items; -0 equals 0, every NaN is one value; fills are not looked at
inline bool same(const Val& a, const Val& b) {
  if (a.k!=b.k) return false;
  if (a.isNum()) return numEq(a.n, b.n);
  if (a.isChr()) return a.c==b.c;
  if (!a.isArr()) return true;
  if (a.a==b.a) return true;
  if (a.sh()!=b.sh() || a.ia()!=b.ia()) return false;
  for (size_t i = 0; i < a.ia(); i++) if (!same(a.it()[i], b.it()[i])) return false;
  return true;
}
inline bool same(BV b, const Val& v) { // without building a Val
  switch (v.k) {
    case Val::NUM: return cb_kind(b)==CK_NUM && numEq(cb_num(b), v.n);
    case Val::CHR: return cb_kind(b)==CK_CHR && cb_chr(b)==v.c;
    case Val::FUN: return cb_kind(b)!=CK_ARR && cb_kind(b)!=CK_NUM && cb_kind(b)!=CK_CHR;
    default: break;
  }
  if (cb_kind(b)!=CK_ARR) return false;
  size_t n = v.ia(); if (cb_ia(b)!=n || (size_t)cb_rank(b)!=v.rank()) return false;
  const size_t* s = cb_shape(b); for (size_t i = 0; i < v.rank(); i++) if (s[i]!=v.sh()[i]) return false;
  const Val* x = v.it().data();
  int e = cb_elt(b); const void* p = e==CE_B? nullptr : cb_raw(b);
#define NUMCMP(E) for (size_t i = 0; i < n; i++) if (!x[i].isNum() || !numEq(E, x[i].n)) return false; break;
#define CHRCMP(E) for (size_t i = 0; i < n; i++) if (!x[i].isChr() || (E)!=x[i].c) return false; break;
  switch (e) {
    case CE_BIT: NUMCMP((double)(((const uint64_t*)p)[i>>6]>>(i&63)&1))
    case CE_I8:  NUMCMP((double)((const int8_t *)p)[i])
    case CE_I16: NUMCMP((double)((const int16_t*)p)[i])
    case CE_I32: NUMCMP((double)((const int32_t*)p)[i])
    case CE_F64: NUMCMP(((const double*)p)[i])
    case CE_C8:  CHRCMP(((const uint8_t *)p)[i])
    case CE_C16: CHRCMP(((const uint16_t*)p)[i])
    case CE_C32: CHRCMP(((const uint32_t*)p)[i])
    default: for (size_t i = 0; i < n; i++) if (!same(cb_item(b, i), x[i])) return false;
  }
#undef NUMCMP
#undef CHRCMP
  return true;
}
inline uint64_t mix(uint64_t h, uint64_t x) { h^= x + 0x9E3779B97F4A7C15ull + (h<<6) + (h>>2); h*= 0xff51afd7ed558ccdull; return h^(h>>32); }
inline uint64_t hashV(const Val& v) {
  if (v.isNum()) { double d = v.n; if (d==0) d = 0; if (d!=d) return 77; uint64_t u; memcpy(&u, &d, 8); return mix(1, u); }
  if (v.isChr()) return mix(2, v.c);
  if (!v.isArr()) return 3;
  uint64_t h = mix(4, v.rank()); for (size_t s : v.sh()) h = mix(h, s);
  for (auto& x : v.it()) h = mix(h, hashV(x));
  return h;
}
// shape product, element ranges, nested arrays
inline bool wellFormed(BV b, string* why) {
  if (cb_kind(b)!=CK_ARR) {
    if (cb_kind(b)==CK_CHR && cb_chr(b)>0x10FFFF) { *why = "a character above the last code point"; return false; }
    if (cb_kind(b)==CK_OTHER) { *why = "an internal object as a value"; return false; }
    return true;
  }
  int rk = cb_rank(b); const size_t* s = cb_shape(b); size_t p = 1; for (int i = 0; i < rk; i++) p*= s[i];
  size_t n = cb_ia(b);
  if (p!=n) { *why = strf("shape product %zu, %zu items", p, n); return false; }
  if (cb_refc(b)<=0) { *why = strf("reference count %d", cb_refc(b)); return false; }
  switch (cb_elt(b)) {
    case CE_C32: for (size_t i = 0; i < n; i++) if (((const uint32_t*)cb_raw(b))[i]>0x10FFFF) { *why = "a character above the last code point"; return false; } break;
    case CE_B: for (size_t i = 0; i < n; i++) if (!wellFormed(cb_item(b, i), why)) return false; break;
    default: break;
  }
  if ((cb_flags(b)&7) && !cb_flags_ok(b)) { *why = string("the array's cached properties are wrong: ")+cb_err(); return false; }
  return true;
}

struct Err { string m; };      // the operation is an error
struct Unspec { };             // nothing is specified
[[noreturn]] inline void err(const char* m = "") { throw Err{m}; }
[[noreturn]] inline void unspec() { throw Unspec{}; }
}
