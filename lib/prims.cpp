#include "prims.hpp"
#include <unordered_map>

namespace bq {
typedef vector<size_t> Sh;
bool isInt(const Val& x, double lo, double hi) { return x.isNum() && x.n==std::floor(x.n) && x.n>=lo && x.n<=hi; }
Val unitOf(const Val& x) { return Val::arr({}, {x}); }
Val asArr(const Val& x) { return x.isArr()? x : unitOf(x); }
static void checkSize(double n) { if (n > 2e7) unspec(); }

// ---------------------------------------------------------------- scalars
static double pfmod(double a, double b) { double r = fmod(a, b); if ((a<0) != (b<0) && r!=0) r+= b; return r; }
static Val chrOf(double d) { if (!(d>=0 && d<=0x10FFFF)) err("character"); return Val::chr((uint32_t)d); }
static double combNat(double k, double n) {
  if (k>514) return INFINITY;
  double p = 1;
  for (size_t i = 0; i < (size_t)k; i++) { p*= (n-i)/(k-i); if (p==INFINITY) return p; }
  return round(p);
}
static double comb(double k, double n) {
  double j = n-k; bool ji = j==round(j);
  if (k==round(k)) {
    if (ji) {
      if (k<j) std::swap(k, j);
      if (n>=0) return j<0? 0 : combNat(j, n);
      if (k<0) return 0;
      double l = -1-n; double r = combNat(k<l? k : l, -1-j);
      return k<9007199254740992.0 && ((long)k&1)? -r : r;
    }
    if (k<0) return 0;
  } else if (ji && j<0) return 0;
  return exp(lgamma(n+1)-lgamma(k+1)-lgamma(j+1));
}
Val s1(const string& g, const Val& x) {
  if (!x.isNum()) err("not a number");
  double v = x.n;
  if (g=="+") return v; if (g=="-") return -v; if (g=="|") return fabs(v); if (g=="⌊") return floor(v); if (g=="⌈") return ceil(v);
  if (g=="×") { if (v!=v) unspec(); return v==0? 0 : v>0? 1 : -1; }
  if (g=="¬") return 1-v; if (g=="÷") return 1/(v+0); if (g=="√") return sqrt(v); if (g=="⋆") return exp(v); if (g=="log") return log(v);
  if (g=="sin") return sin(v); if (g=="cos") return cos(v); if (g=="tan") return tan(v);
  if (g=="asin") return asin(v); if (g=="acos") return acos(v); if (g=="atan") return atan(v);
  if (g=="sinh") return sinh(v); if (g=="cosh") return cosh(v); if (g=="tanh") return tanh(v);
  if (g=="asinh") return asinh(v); if (g=="acosh") return acosh(v); if (g=="atanh") return atanh(v);
  if (g=="cbrt") return cbrt(v); if (g=="log2") return log2(v); if (g=="log10") return log10(v); if (g=="log1p") return log1p(v);
  if (g=="expm1") return expm1(v); if (g=="erf") return erf(v); if (g=="erfc") return erfc(v);
  if (g=="fact") return tgamma(v+1); if (g=="logfact") return lgamma(v+1);
  fprintf(stderr, "s1 %s\n", g.c_str()); abort();
}
static int ord3(double a, double b) { if (a!=a || b!=b) unspec(); return a<b? -1 : a>b? 1 : 0; }
Val s2(const string& g, const Val& w, const Val& x) {
  bool nn = w.isNum() && x.isNum();
  if (g=="+" || g=="-") {
    if (nn) return g=="+"? w.n+x.n : w.n-x.n;
    if (g=="+") {
      if (w.isChr() && x.isNum()) { if (!isInt(x)) err(); return chrOf(w.c+x.n); }
      if (w.isNum() && x.isChr()) { if (!isInt(w)) err(); return chrOf(x.c+w.n); }
    } else {
      if (w.isChr() && x.isNum()) { if (!isInt(x)) err(); return chrOf(w.c-x.n); }
      if (w.isChr() && x.isChr()) return (double)w.c-(double)x.c;
    }
    err("types");
  }
  if (g=="¬") { Val d = s2("-", w, x); return s2("+", Val(1), d); }
  if (g=="=" || g=="≠") { if (w.k==Val::FUN || x.k==Val::FUN) unspec(); bool e = w.k==x.k && (w.isNum()? w.n==x.n : w.c==x.c); return (int)(g=="="? e : !e); }
  if (g=="<" || g==">" || g=="≤" || g=="≥") {
    if (nn) return (int)(g=="<"? w.n<x.n : g==">"? w.n>x.n : g=="≤"? w.n<=x.n : w.n>=x.n);
    if (w.k==Val::FUN || x.k==Val::FUN) err();
    int c = w.isChr() && x.isChr()? (w.c<x.c? -1 : w.c>x.c) : w.isNum()? -1 : 1;
    return (int)(g=="<"? c<0 : g==">"? c>0 : g=="≤"? c<=0 : c>=0);
  }
  if (!nn) err("types");
  double a = w.n, b = x.n;
  if (g=="×" || g=="∧") return a*b;
  if (g=="÷") return a/(b+0);
  if (g=="⋆") return pow(a+0, b);
  if (g=="√") return pow(b+0, 1.0/(a+0));
  if (g=="log") return log(b)/log(a);
  if (g=="⌊" || g=="⌈") { if (a!=a || b!=b) unspec(); return g=="⌊"? (a>b? b : a) : (a>b? a : b); }
  if (g=="|") return pfmod(b, a);
  if (g=="∨") return (a+b)-(a*b);
  if (g=="atan2") return atan2(b+0, a+0);
  if (g=="hypot") return hypot(b, a);
  if (g=="comb") return comb(b, a);
  if (g=="gcd" || g=="lcm") {
    if (!isInt(w, 0, 18446744073709549568.0) || !isInt(x, 0, 18446744073709549568.0)) err("naturals");
    unsigned long p = a, q = b, p0 = p, q0 = q; while (q) { unsigned long t = p%q; p = q; q = t; }
    if (g=="gcd") return (double)p;
    return p0==0 || q0==0? 0.0 : (double)((p0/p)*q0);
  }
  fprintf(stderr, "s2 %s\n", g.c_str()); abort();
}
Val perv1(const F1& f, const Val& x) {
  if (!x.isArr()) return f(x);
  vector<Val> r; r.reserve(x.ia());
  for (auto& v : x.it()) r.push_back(perv1(f, v));
  return Val::arr(x.sh(), std::move(r));
}
Val perv2(const F2& f, const Val& w, const Val& x) {
  if (!w.isArr() && !x.isArr()) return f(w, x);
  vector<Val> r;
  if (!w.isArr()) { r.reserve(x.ia()); for (auto& v : x.it()) r.push_back(perv2(f, w, v)); return Val::arr(x.sh(), std::move(r)); }
  if (!x.isArr()) { r.reserve(w.ia()); for (auto& v : w.it()) r.push_back(perv2(f, v, x)); return Val::arr(w.sh(), std::move(r)); }
  size_t mr = std::min(w.rank(), x.rank());
  for (size_t i = 0; i < mr; i++) if (w.sh()[i]!=x.sh()[i]) err("shape prefix");
  bool wl = w.rank() >= x.rank(); const Sh& sh = wl? w.sh() : x.sh();
  size_t n = wl? w.ia() : x.ia(), cs = prod(sh, mr);
  r.reserve(n);
  for (size_t i = 0; i < n; i++) r.push_back(wl? perv2(f, w.it()[i], x.it()[i/cs]) : perv2(f, w.it()[i/cs], x.it()[i]));
  return Val::arr(sh, std::move(r));
}
// the order: numbers before characters; an atom is compared with an array as a unit, and comes first on a tie; arrays
// by their first differing element within the common trailing axes, then by length of the first axis that differs, then rank
int cmpV(const Val& w, const Val& x) {
  if (w.k==Val::FUN || x.k==Val::FUN) err("order of functions");
  if (!w.isArr() && !x.isArr()) {
    if (w.isNum() && x.isNum()) return ord3(w.n, x.n);
    if (w.isChr() && x.isChr()) return w.c<x.c? -1 : w.c>x.c;
    return w.isNum()? -1 : 1;
  }
  if (!w.isArr()) { if (x.ia()==0) return 1; int c = cmpV(w, x.it()[0]); return c<=0? -1 : 1; }
  if (!x.isArr()) return -cmpV(x, w);
  const Sh &a = w.sh(), &b = x.sh();
  int rc = a.size()<b.size()? -1 : a.size()>b.size();
  size_t k = 0, m = 1, mr = std::min(a.size(), b.size());
  while (k<mr && a[a.size()-1-k]==b[b.size()-1-k]) { m*= a[a.size()-1-k]; k++; }
  if (k<mr) { size_t p = a[a.size()-1-k], q = b[b.size()-1-k]; rc = p<q? -1 : 1; m*= std::min(p, q); }
  if (w.ia()==0 || x.ia()==0) { int c = w.ia()<x.ia()? -1 : w.ia()>x.ia(); return c? c : rc; }
  for (size_t i = 0; i < m; i++) { int c = cmpV(w.it()[i], x.it()[i]); if (c) return c; }
  return rc;
}
template<bool NANEQ> static bool eqImpl(const Val& w, const Val& x) {
  if (w.k!=x.k) return false;
  if (w.isNum()) return w.n==x.n || (NANEQ && w.n!=w.n && x.n!=x.n);
  if (w.isChr()) return w.c==x.c;
  if (w.k==Val::FUN) unspec();
  if (w.sh()!=x.sh() || w.ia()!=x.ia()) return false;
  for (size_t i = 0; i < w.ia(); i++) if (!eqImpl<NANEQ>(w.it()[i], x.it()[i])) return false;
  return true;
}
bool matchV(const Val& w, const Val& x) { return eqImpl<false>(w, x); }
bool eqV(const Val& w, const Val& x) { return eqImpl<true>(w, x); }

// ---------------------------------------------------------------- helpers
static const Sh tailSh(const Val& x, size_t k) { return Sh(x.sh().begin()+k, x.sh().end()); }
static bool getFill(const Val& x, Val* f);
static Val cellFill(Val c, bool known, const Val& f) { c.a->fs = known? F_KNOWN : F_NONE; c.a->fl = f; return c; } // cells have the fill of the whole
Val cellOf(const Val& x, size_t i) {
  size_t cs = prod(x.sh(), 1); Val f; bool fk = getFill(x, &f);
  return cellFill(Val::arr(tailSh(x, 1), vector<Val>(x.it().begin()+i*cs, x.it().begin()+(i+1)*cs)), fk, f);
}
vector<Val> cells(const Val& x, size_t k) {
  size_t r = x.rank(); if (k>r) k = r;
  size_t fr = prod(x.sh(), 0, r-k), cs = prod(x.sh(), r-k); vector<Val> out; out.reserve(fr); Val f; bool fk = getFill(x, &f);
  for (size_t i = 0; i < fr; i++) out.push_back(k==0 && !x.isArr()? x : cellFill(Val::arr(tailSh(x, r-k), vector<Val>(x.it().begin()+i*cs, x.it().begin()+(i+1)*cs)), fk, f));
  return out;
}
static vector<Val> majors(const Val& x) { if (x.rank()==0) err("rank 0"); return cells(x, x.rank()-1); }
static Val joinCells(const Sh& frame, const vector<Val>& c, const Sh& csh) {
  vector<Val> r; for (auto& v : c) { if (v.isArr()) r.insert(r.end(), v.it().begin(), v.it().end()); else r.push_back(v); }
  return Val::arr(concat(frame, csh), std::move(r));
}
Val merge(const Val& x) {
  if (!x.isArr()) return x;
  if (x.ia()==0) { const Val* f = x.fill(); if (!f || !f->isArr()) unspec(); vector<Val> none; return Val::arr(concat(x.sh(), f->sh()), none); }
  const Sh s = x.it()[0].sh();
  for (auto& v : x.it()) if (v.sh()!=s) err("merge shapes");
  return joinCells(x.sh(), x.it(), s);
}
long depthV(const Val& x) { if (!x.isArr()) return 0; long m = 0; for (auto& v : x.it()) m = std::max(m, depthV(v)); return m+1; }
static Val list(vector<Val> v) { return Val::vec(std::move(v)); }
template<class T> static Val ints(const vector<T>& v, Sh sh) { vector<Val> r; r.reserve(v.size()); for (auto x : v) r.push_back(Val((double)x)); return Val::arr(std::move(sh), std::move(r)); }

// fill of a value: 0 unknown
static bool getFill(const Val& x, Val* f) {
  if (x.isNum()) { *f = Val(0); return true; } if (x.isChr()) { *f = Val::chr(' '); return true; }
  if (!x.isArr()) return false;
  if (x.a->fs==F_KNOWN) { *f = x.a->fl; return true; }
  if (x.a->fs==F_NONE || x.ia()==0) return false;
  bool an = true, ac = true; for (auto& v : x.it()) { an&= v.isNum(); ac&= v.isChr(); }
  if (an) { *f = Val(0); return true; } if (ac) { *f = Val::chr(' '); return true; }
  return false;
}
static Val needFill(const Val& x) { Val f; if (!getFill(x, &f)) unspec(); return f; }

// ---------------------------------------------------------------- structural
static Val reshape(const Val& w0, const Val& x) {
  Val w = w0.isArr()? w0 : list({w0});
  if (w.rank()>1) err(); if (w.rank()==0) w = list({w.it()[0]});
  size_t xn = x.isArr()? x.ia() : 1; Sh sh; long hole = -1; char mode = 0; double p = 1;
  for (size_t i = 0; i < w.ia(); i++) {
    const Val& v = w.it()[i];
    if (v.k==Val::FUN) { if (hole>=0) err(); hole = i; mode = (char)v.n; sh.push_back(0); continue; }
    if (!isInt(v, 0)) err();
    sh.push_back(v.n); p*= v.n;
  }
  bool fillIt = false;
  if (hole>=0) {
    if (p==0) err(); size_t q = p;
    switch (mode) {
      case 'o': if (xn%q) err(); sh[hole] = xn/q; break;
      case 'f': sh[hole] = xn/q; break;
      case 'r': sh[hole] = (xn+q-1)/q; break;
      case 't': sh[hole] = (xn+q-1)/q; fillIt = true; break;
      default: err();
    }
  }
  if (p!=0) { double t = 1; for (auto s : sh) t*= s; checkSize(t); }
  size_t n = prod(sh); vector<Val> r; r.reserve(n);
  const vector<Val> one = {x}; const vector<Val>& it = x.isArr()? x.it() : one;
  if (n && !xn && !fillIt) err("empty to nonempty");
  Val f; if (fillIt && n>xn) f = needFill(x);
  for (size_t i = 0; i < n; i++) r.push_back(i<xn? it[i] : fillIt? f : it[i%xn]);
  return Val::arr(sh, std::move(r));
}
static Val deshape(const Val& x) { if (!x.isArr()) return list({x}); Val r = Val::arr({x.ia()}, x.it()); r.a->fs = x.a->fs; r.a->fl = x.a->fl; return r; }
// the counts of ↑ and ↓ along each axis; x is an array
static vector<double> axisArgs(const Val& w) {
  if (!w.isArr()) { if (!isInt(w)) err(); return {w.n}; }
  if (w.rank()>1) err();
  vector<double> r; for (auto& v : w.it()) { if (!isInt(v)) err(); r.push_back(v.n); }
  return r;
}
static Val takeDrop(bool take, const Val& w, const Val& x0) {
  vector<double> c = axisArgs(w); Val x = asArr(x0);
  if (w.isArr() && w.ia()==0) return x;
  Sh xs = x.sh(); while (xs.size()<c.size()) xs.insert(xs.begin(), 1);
  size_t r = xs.size(); Sh rs(r); vector<long> off(r, 0);
  double tot = 1; bool zero = false;
  for (size_t i = 0; i < r; i++) {
    double k = i<c.size()? c[i] : take? (double)xs[i] : 0; double a = fabs(k);
    if (take) { rs[i] = a; off[i] = k>=0? 0 : (long)xs[i]-(long)a; }
    else { double q = a>=xs[i]? 0 : xs[i]-a; rs[i] = q; off[i] = k>=0? (long)std::min<double>(a, xs[i]) : 0; }
    tot*= rs[i]; zero|= rs[i]==0;
  }
  if (!zero) checkSize(tot);
  size_t n = zero? 0 : tot; vector<Val> out; out.reserve(n); bool over = false;
  for (size_t i = 0; i < r; i++) over|= rs[i]>xs[i];
  Val f; bool hf = getFill(x, &f);
  if (over && n && !hf) unspec();
  Sh ix(r, 0);
  for (size_t k = 0; k < n; k++) {
    long pos = 0; bool in = true;
    for (size_t i = 0; i < r; i++) { long q = (long)ix[i]+off[i]; if (q<0 || q>=(long)xs[i]) in = false; pos = pos*xs[i]+q; }
    out.push_back(in? x.it()[pos] : f);
    for (size_t i = r; i--;) { if (++ix[i]<rs[i]) break; ix[i] = 0; }
  }
  return Val::arr(rs, std::move(out));
}
static Val firstN(const Val& x, size_t k, bool post) { // prefix of k major cells, or the suffix without k
  size_t cs = prod(x.sh(), 1); Sh s = x.sh(); s[0] = post? s[0]-k : k;
  return post? Val::arr(s, vector<Val>(x.it().begin()+k*cs, x.it().end())) : Val::arr(s, vector<Val>(x.it().begin(), x.it().begin()+k*cs));
}
static Val rotate1(const Val& x, size_t ax, double amt) {
  size_t n = x.sh()[ax]; if (n==0) return x;
  long k = (long)pfmod(amt, (double)n); size_t in = prod(x.sh(), ax+1), out = prod(x.sh(), 0, ax);
  vector<Val> r; r.reserve(x.ia());
  for (size_t o = 0; o < out; o++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < in; j++) r.push_back(x.it()[(o*n+(i+k)%n)*in+j]);
  return Val::arr(x.sh(), std::move(r));
}
static Val join2(const Val& w0, const Val& x0) {
  if (!w0.isArr() && !x0.isArr()) return list({w0, x0});
  Val w = asArr(w0), x = asArr(x0);
  size_t c = std::max<size_t>(1, std::max(w.rank(), x.rank()));
  if (c-w.rank()>1 || c-x.rank()>1) err("ranks");
  Sh ws = w.sh(), xs = x.sh(); if (ws.size()<c) ws.insert(ws.begin(), 1); if (xs.size()<c) xs.insert(xs.begin(), 1);
  for (size_t i = 1; i < c; i++) if (ws[i]!=xs[i]) err("lengths");
  Sh s = ws; s[0]+= xs[0]; vector<Val> r = w.it(); r.insert(r.end(), x.it().begin(), x.it().end());
  return Val::arr(s, std::move(r));
}
// ∾𝕩: items are blocks laid out along the axes of 𝕩
static Val join1(const Val& x) {
  if (!x.isArr()) err();
  size_t xr = x.rank();
  if (xr==0) { const Val& v = x.it()[0]; return asArr(v); }
  if (x.ia()==0) unspec();
  const Sh& xs = x.sh();
  size_t mr = 0; for (auto& v : x.it()) mr = std::max(mr, v.rank());
  // rank of each item = (trailing rank) + number of axes on which it is not a cell; which axes have length depends on position only
  // determined from the first item's lines
  const Val& root = x.it()[0]; size_t r0 = root.rank();
  vector<size_t> st(xr, 1); for (size_t i = xr-1; i>0; i--) st[i-1] = st[i]*xs[i];
  vector<vector<bool>> has(xr); // does index i along axis a carry an axis?
  for (size_t a = 0; a < xr; a++) {
    has[a].assign(xs[a], true);
    if (xs[a]==1) continue; // the only item along the axis has to carry it
    size_t hi = 0, lo = ~(size_t)0; for (size_t i = 0; i < xs[a]; i++) { size_t q = x.it()[i*st[a]].rank(); hi = std::max(hi, q); lo = std::min(lo, q); }
    if (hi-lo>1) err("ranks along an axis");
    if (hi!=lo) for (size_t i = 0; i < xs[a]; i++) has[a][i] = x.it()[i*st[a]].rank()==hi;
  }
  size_t rootAxes = 0; for (size_t a = 0; a < xr; a++) rootAxes+= has[a][0];
  // all items of equal rank along every longer axis: they all carry the axis, unless that leaves the root too small a rank
  if (rootAxes>r0) err("ranks");
  size_t tr = r0-rootAxes;
  vector<vector<size_t>> len(xr); for (size_t a = 0; a < xr; a++) len[a].assign(xs[a], 1);
  Sh trail(root.sh().end()-tr, root.sh().end());
  vector<vector<bool>> seen(xr); for (size_t a = 0; a < xr; a++) seen[a].assign(xs[a], false);
  Sh ix(xr, 0);
  for (size_t k = 0; k < x.ia(); k++) {
    const Val& v = x.it()[k]; size_t want = tr; for (size_t a = 0; a < xr; a++) want+= has[a][ix[a]];
    if (v.rank()!=want) err("item rank");
    size_t p = 0;
    for (size_t a = 0; a < xr; a++) if (has[a][ix[a]]) {
      size_t l = v.sh()[p++];
      if (!seen[a][ix[a]]) { len[a][ix[a]] = l; seen[a][ix[a]] = true; } else if (len[a][ix[a]]!=l) err("item shape");
    }
    for (size_t i = 0; i < tr; i++) if (v.sh()[p+i]!=trail[i]) err("trailing shape");
    for (size_t a = xr; a--;) { if (++ix[a]<xs[a]) break; ix[a] = 0; }
  }
  Sh rs(xr, 0); vector<vector<size_t>> offs(xr);
  for (size_t a = 0; a < xr; a++) for (size_t i = 0; i < xs[a]; i++) { offs[a].push_back(rs[a]); rs[a]+= len[a][i]; }
  Sh full = concat(rs, trail); size_t tsz = prod(trail); vector<Val> out(prod(full));
  std::fill(ix.begin(), ix.end(), 0);
  for (size_t k = 0; k < x.ia(); k++) {
    const Val& v = x.it()[k]; Sh ext(xr); for (size_t a = 0; a < xr; a++) ext[a] = len[a][ix[a]];
    size_t n = prod(ext); Sh j(xr, 0);
    for (size_t q = 0; q < n; q++) {
      size_t pos = 0; for (size_t a = 0; a < xr; a++) pos = pos*rs[a]+offs[a][ix[a]]+j[a];
      for (size_t t = 0; t < tsz; t++) out[pos*tsz+t] = v.isArr()? v.it()[q*tsz+t] : v;
      for (size_t a = xr; a--;) { if (++j[a]<ext[a]) break; j[a] = 0; }
    }
    for (size_t a = xr; a--;) { if (++ix[a]<xs[a]) break; ix[a] = 0; }
  }
  return Val::arr(full, std::move(out));
}
static Val shiftV(bool before, const Val& w0, const Val& x, bool mon) {
  if (x.rank()==0) err();
  size_t cs = prod(x.sh(), 1); vector<Val> ins; size_t n = x.ia();
  if (mon) { if (n==0) return x; ins.assign(cs, needFill(x)); }
  else {
    Val w = asArr(w0);
    if (w.rank()!=x.rank() && w.rank()+1!=x.rank()) err();
    for (size_t i = 1; i < x.rank(); i++) if (w.sh()[i+w.rank()-x.rank()]!=x.sh()[i]) err();
    ins = w.it();
  }
  vector<Val> r;
  if (before) { r = ins; r.insert(r.end(), x.it().begin(), x.it().end()); r.resize(n); }
  else { r = x.it(); r.insert(r.end(), ins.begin(), ins.end()); r.erase(r.begin(), r.end()-n); }
  return Val::arr(x.sh(), std::move(r));
}
static Val transpose1(const Val& x) {
  if (x.rank()==0) return asArr(x);
  size_t n = x.sh()[0], cs = prod(x.sh(), 1); Sh s = tailSh(x, 1); s.push_back(n);
  vector<Val> r; r.reserve(x.ia()); for (size_t j = 0; j < cs; j++) for (size_t i = 0; i < n; i++) r.push_back(x.it()[i*cs+j]);
  return Val::arr(s, std::move(r));
}
// 𝕨⍉𝕩: axis i of 𝕩 becomes axis w_i; the axes not mentioned fill the gaps in order
static Val transpose2(const Val& w0, const Val& x0) {
  Val w = w0.isArr()? w0 : list({w0}); Val x = asArr(x0);
  if (w.rank()>1) err(); if (w.rank()==0) w = list({w.it()[0]});
  size_t xr = x.rank(); if (w.ia()>xr) err();
  vector<size_t> to(xr, ~(size_t)0); size_t mx = 0; vector<bool> used(xr+1, false); size_t distinct = 0;
  for (size_t i = 0; i < w.ia(); i++) { if (!isInt(w.it()[i], 0)) err(); if (w.it()[i].n>=xr) err(); to[i] = w.it()[i].n; if (!used[to[i]]) { used[to[i]] = true; distinct++; } }
  size_t rr = distinct+(xr-w.ia());
  for (size_t i = 0; i < w.ia(); i++) if (to[i]>=rr) err();
  size_t q = 0; for (size_t i = w.ia(); i < xr; i++) { while (used[q]) q++; to[i] = q; used[q] = true; }
  Sh rs(rr, ~(size_t)0); for (size_t i = 0; i < xr; i++) rs[to[i]] = std::min(rs[to[i]], x.sh()[i]);
  for (auto s : rs) if (s==~(size_t)0) err();
  size_t n = prod(rs); vector<Val> r; r.reserve(n); Sh ix(rr, 0);
  for (size_t k = 0; k < n; k++) {
    size_t pos = 0; for (size_t i = 0; i < xr; i++) pos = pos*x.sh()[i]+ix[to[i]];
    r.push_back(x.it()[pos]);
    for (size_t a = rr; a--;) { if (++ix[a]<rs[a]) break; ix[a] = 0; }
  }
  return Val::arr(rs, std::move(r));
}
static Val range1(const Val& x) {
  if (!x.isArr()) { if (!isInt(x, 0)) err(); checkSize(x.n); vector<Val> r; for (size_t i = 0; i < x.n; i++) r.push_back(Val((double)i)); return list(std::move(r)); }
  if (x.rank()!=1) err();
  Sh s; double t = 1; for (auto& v : x.it()) { if (!isInt(v, 0)) err(); s.push_back(v.n); t*= v.n; }
  checkSize(t); size_t n = prod(s); vector<Val> r; Sh ix(s.size(), 0);
  for (size_t k = 0; k < n; k++) { r.push_back(ints(ix, {s.size()})); for (size_t a = s.size(); a--;) { if (++ix[a]<s[a]) break; ix[a] = 0; } }
  return Val::arr(s, std::move(r));
}
static Val windows(const Val& w0, const Val& x0) {
  Val w = w0.isArr()? w0 : list({w0}); if (w.rank()>1) err(); if (w.rank()==0) w = list({w.it()[0]});
  Val x = asArr(x0); size_t k = w.ia(); if (k>x.rank()) err();
  if (k==0) return x;
  Sh win, fr; for (size_t i = 0; i < k; i++) { if (!isInt(w.it()[i], 0)) err(); double q = w.it()[i].n; if (q>x.sh()[i]+1) err(); win.push_back(q); fr.push_back(x.sh()[i]+1-(size_t)q); }
  Sh rest(x.sh().begin()+k, x.sh().end()); size_t cs = prod(rest);
  Sh full = concat(concat(fr, win), rest); double t = 1; for (auto s : full) t*= s; checkSize(t);
  size_t n = prod(fr)*prod(win); vector<Val> r; r.reserve(n*cs); Sh ix(2*k, 0), lim = concat(fr, win);
  for (size_t q = 0; q < n; q++) {
    size_t pos = 0; for (size_t a = 0; a < k; a++) pos = pos*x.sh()[a]+ix[a]+ix[k+a];
    for (size_t c = 0; c < cs; c++) r.push_back(x.it()[pos*cs+c]);
    for (size_t a = 2*k; a--;) { if (++ix[a]<lim[a]) break; ix[a] = 0; }
  }
  return Val::arr(full, std::move(r));
}
// ---------------------------------------------------------------- select, pick
static long wrapIdx(const Val& v, size_t n) { if (!isInt(v)) err(); double d = v.n; if (d<0) d+= n; if (d<0 || d>=n) err("index"); return d; }
static Val selectSimple(const Val& w, const Val& x) { // along the first axis
  if (x.rank()==0) err();
  size_t n = x.sh()[0], cs = prod(x.sh(), 1); vector<Val> r;
  Sh fs = w.isArr()? w.sh() : Sh();
  const vector<Val> one = {w};
  for (auto& v : w.isArr()? w.it() : one) { if (v.isArr()) err(); long i = wrapIdx(v, n); r.insert(r.end(), x.it().begin()+i*cs, x.it().begin()+(i+1)*cs); }
  return Val::arr(concat(fs, tailSh(x, 1)), std::move(r));
}
static Val select2(const Val& w, const Val& x) {
  if (!x.isArr()) { if (w.isArr() && w.rank()<=1 && w.ia()==0) unspec(); err(); }
  if (!w.isArr() || w.ia()==0) { if (w.isArr() && w.rank()==1 && w.ia()==0 && x.rank()==0) unspec(); return selectSimple(w, x); }
  bool anyA = false, allA = true; for (auto& v : w.it()) { anyA|= v.isArr(); allA&= v.isArr(); }
  if (!anyA) return selectSimple(w, x);
  if (w.rank()>1) err();
  if (!allA) err();
  if (w.ia()>x.rank()) err();
  // one array of indices per leading axis
  size_t k = w.ia(); Sh fr; vector<vector<long>> ix(k);
  for (size_t a = 0; a < k; a++) { const Val& v = w.it()[a]; fr = concat(fr, v.sh()); for (auto& q : v.it()) { if (q.isArr()) err(); ix[a].push_back(wrapIdx(q, x.sh()[a])); } }
  Sh rest(x.sh().begin()+k, x.sh().end()); size_t cs = prod(rest), n = 1; for (auto& v : ix) n*= v.size();
  vector<Val> r; r.reserve(n*cs);
  for (size_t q = 0; q < n; q++) {
    size_t m = q, pos = 0; vector<size_t> id(k); for (size_t a = k; a--;) { id[a] = m%ix[a].size(); m/= ix[a].size(); }
    for (size_t a = 0; a < k; a++) pos = pos*x.sh()[a]+ix[a][id[a]];
    r.insert(r.end(), x.it().begin()+pos*cs, x.it().begin()+(pos+1)*cs);
  }
  return Val::arr(concat(fr, rest), std::move(r));
}
static Val pick2(const Val& w, const Val& x0) {
  Val x = asArr(x0);
  if (!w.isArr()) { if (!w.isNum()) err(); if (x.rank()!=1) err(); return x.it()[wrapIdx(w, x.ia())]; }
  bool anyA = false, anyAtom = false; for (auto& v : w.it()) { anyA|= v.isArr(); anyAtom|= !v.isArr(); }
  if (anyA) { if (anyAtom) err(); vector<Val> r; for (auto& v : w.it()) r.push_back(pick2(v, x)); return Val::arr(w.sh(), std::move(r)); }
  if (w.ia()==0 && w.rank()!=1) unspec();
  if (w.rank()!=1) err();
  if (w.ia()!=x.rank()) err();
  size_t pos = 0; for (size_t a = 0; a < w.ia(); a++) pos = pos*x.sh()[a]+wrapIdx(w.it()[a], x.sh()[a]);
  return x.it()[pos];
}
// ---------------------------------------------------------------- replicate, indices
static Val repAxis(const vector<size_t>& cnt, size_t ax, const Val& x) {
  size_t n = x.sh()[ax], in = prod(x.sh(), ax+1), out = prod(x.sh(), 0, ax); Sh s = x.sh(); size_t t = 0; for (auto c : cnt) t+= c; s[ax] = t;
  checkSize((double)t*in*out);
  vector<Val> r; for (size_t o = 0; o < out; o++) for (size_t i = 0; i < n; i++) for (size_t c = 0; c < cnt[i]; c++) r.insert(r.end(), x.it().begin()+(o*n+i)*in, x.it().begin()+(o*n+i+1)*in);
  return Val::arr(s, std::move(r));
}
static vector<size_t> counts(const Val& w, size_t n) {
  if (!w.isArr() || w.rank()==0) { const Val& v = w.isArr()? w.it()[0] : w; if (!isInt(v, 0)) err(); checkSize(v.n*(double)n); return vector<size_t>(n, v.n); }
  if (w.rank()!=1 || w.ia()!=n) err();
  vector<size_t> r; double t = 0; for (auto& v : w.it()) { if (!isInt(v, 0)) err(); r.push_back(v.n); t+= v.n; }
  checkSize(t); return r;
}
static Val slash2(const Val& w, const Val& x0) {
  Val x = x0;
  if (w.isArr() && w.rank()==1 && w.ia()==0 && !x.isArr()) unspec();
  if (w.isArr() && w.rank()==1 && w.ia()==0) return asArr(x);
  bool anyA = false; if (w.isArr()) for (auto& v : w.it()) anyA|= v.isArr();
  if (!anyA) { if (x.rank()==0) err(); return repAxis(counts(w, x.sh()[0]), 0, x); }
  if (w.rank()>1) err();
  if (w.ia()>x.rank()) err();
  for (size_t a = 0; a < w.ia(); a++) x = repAxis(counts(w.it()[a], x.sh()[a]), a, x);
  return x;
}
static Val slash1(const Val& x) {
  if (x.rank()!=1) err();
  vector<Val> r; double t = 0;
  for (auto& v : x.it()) { if (v.isArr()) unspec(); if (!isInt(v, 0)) err(); t+= v.n; }
  checkSize(t);
  for (size_t i = 0; i < x.ia(); i++) for (size_t k = 0; k < x.it()[i].n; k++) r.push_back(Val((double)i));
  return list(std::move(r));
}
// ---------------------------------------------------------------- sorting, searching
static vector<size_t> gradeOf(const vector<Val>& c, bool down) {
  vector<size_t> p(c.size()); for (size_t i = 0; i < p.size(); i++) p[i] = i;
  std::stable_sort(p.begin(), p.end(), [&](size_t a, size_t b) { int k = cmpV(c[a], c[b]); return down? k>0 : k<0; });
  return p;
}
// cells of a rank-1 array are compared as the items themselves
static vector<Val> ordCells(const Val& x) { if (x.rank()==0) err(); return x.rank()==1? x.it() : cells(x, x.rank()-1); }
static Val bins(const Val& w, const Val& x0, bool down) {
  if (w.rank()==0) err();
  Val x = asArr(x0); size_t wr = w.rank(); if (x.rank()+1<wr) err();
  vector<Val> wc = ordCells(w); int sg = down? -1 : 1;
  for (size_t i = 1; i < wc.size(); i++) if (sg*cmpV(wc[i-1], wc[i])>0) err("not sorted");
  Sh fs(x.sh().begin(), x.sh().end()-(wr-1)); vector<Val> xc;
  if (wr==1) xc = x.it(); else xc = cells(x, wr-1);
  vector<Val> r; for (auto& v : xc) { size_t k = 0; while (k<wc.size() && sg*cmpV(wc[k], v)<=0) k++; r.push_back(Val((double)k)); }
  return Val::arr(fs, std::move(r));
}
struct Bucket { // positions by value, to keep large lists affordable
  std::unordered_map<uint64_t, vector<size_t>> m; const vector<Val>* c;
  void add(size_t i) { m[hashV((*c)[i])].push_back(i); }
  long first(const Val& v) { auto it = m.find(hashV(v)); if (it==m.end()) return -1; for (size_t i : it->second) if (eqV((*c)[i], v)) return i; return -1; }
};
static void searchArgs(const Val& w, const Val& x0, vector<Val>& wc, vector<Val>& xc, Sh& fs) {
  if (w.rank()==0) err();
  Val x = asArr(x0); size_t wr = w.rank(); if (x.rank()+1<wr) err();
  wc = ordCells(w); fs = Sh(x.sh().begin(), x.sh().end()-(wr-1)); xc = wr==1? x.it() : cells(x, wr-1);
}
static Val indexOf(const Val& w, const Val& x) {
  vector<Val> wc, xc; Sh fs; searchArgs(w, x, wc, xc, fs);
  Bucket b; b.c = &wc; for (size_t i = 0; i < wc.size(); i++) b.add(i);
  vector<Val> r; for (auto& v : xc) { long p = b.first(v); r.push_back(Val(p<0? (double)wc.size() : (double)p)); }
  return Val::arr(fs, std::move(r));
}
static Val memberOf(const Val& w, const Val& x) { // 𝕨∊𝕩
  vector<Val> wc, xc; Sh fs; searchArgs(x, w, wc, xc, fs);
  Bucket b; b.c = &wc; for (size_t i = 0; i < wc.size(); i++) b.add(i);
  vector<Val> r; for (auto& v : xc) r.push_back(Val((int)(b.first(v)>=0)));
  return Val::arr(fs, std::move(r));
}
static Val progIndex(const Val& w, const Val& x) {
  vector<Val> wc, xc; Sh fs; searchArgs(w, x, wc, xc, fs);
  std::unordered_map<uint64_t, vector<size_t>> m; for (size_t i = wc.size(); i--;) m[hashV(wc[i])].push_back(i);
  vector<Val> r; for (auto& v : xc) {
    double res = wc.size(); auto it = m.find(hashV(v));
    if (it!=m.end()) for (size_t k = it->second.size(); k--;) if (eqV(wc[it->second[k]], v)) { res = it->second[k]; it->second.erase(it->second.begin()+k); break; }
    r.push_back(Val(res));
  }
  return Val::arr(fs, std::move(r));
}
static Val selfSearch(const string& g, const Val& x) {
  vector<Val> c = ordCells(x); Bucket b; b.c = &c; vector<Val> r; vector<double> cnt(c.size(), 0); vector<size_t> cls(c.size(), 0); size_t nc = 0; vector<size_t> firsts;
  for (size_t i = 0; i < c.size(); i++) {
    long p = b.first(c[i]);
    if (p<0) { b.add(i); cls[i] = nc++; firsts.push_back(i); p = i; r.push_back(Val(g=="⊐"? (double)cls[i] : g=="⊒"? 0.0 : 1.0)); }
    else { cnt[p]++; r.push_back(Val(g=="⊐"? (double)cls[p] : g=="⊒"? cnt[p] : 0.0)); }
  }
  if (g!="⍷") return list(std::move(r));
  size_t cs = prod(x.sh(), 1); vector<Val> o; for (size_t i : firsts) o.insert(o.end(), x.it().begin()+i*cs, x.it().begin()+(i+1)*cs);
  Sh s = x.sh(); s[0] = firsts.size(); return Val::arr(s, std::move(o));
}
static Val find2(const Val& w0, const Val& x0) {
  Val w = asArr(w0), x = asArr(x0); size_t r = w.rank(); if (r>x.rank()) err();
  size_t lead = x.rank()-r; Sh rs(x.sh().begin(), x.sh().begin()+lead), off;
  for (size_t i = 0; i < r; i++) { size_t a = w.sh()[i], b = x.sh()[lead+i]; off.push_back(a>b? 0 : b+1-a); }
  rs = concat(rs, off); size_t n = prod(rs); vector<Val> out; Sh ix(rs.size(), 0);
  for (size_t k = 0; k < n; k++) {
    bool ok = true; Sh j(r, 0);
    for (size_t q = 0; q < w.ia() && ok; q++) {
      size_t pos = 0; for (size_t a = 0; a < lead; a++) pos = pos*x.sh()[a]+ix[a];
      for (size_t a = 0; a < r; a++) pos = pos*x.sh()[lead+a]+ix[lead+a]+j[a];
      ok = eqV(w.it()[q], x.it()[pos]);
      for (size_t a = r; a--;) { if (++j[a]<w.sh()[a]) break; j[a] = 0; }
    }
    out.push_back(Val((int)ok));
    for (size_t a = rs.size(); a--;) { if (++ix[a]<rs[a]) break; ix[a] = 0; }
  }
  return Val::arr(rs, std::move(out));
}
// ---------------------------------------------------------------- group
static Val group2(const Val& w, const Val& x) {
  if (x.rank()==0) err();
  bool anyA = false; if (w.isArr()) for (auto& v : w.it()) anyA|= v.isArr();
  vector<Val> axes; if (!anyA) { if (!w.isArr() || w.rank()!=1) unspec(); axes.push_back(w); } else { if (w.rank()>1) unspec(); for (auto& v : w.it()) axes.push_back(v); }
  size_t k = axes.size(); if (k>x.rank()) err();
  Sh fr; vector<vector<double>> ix(k); vector<vector<double>> extra(k);
  for (size_t a = 0; a < k; a++) {
    const Val& v = axes[a]; if (!v.isArr()) err(); if (v.rank()!=1) unspec();
    size_t n = x.sh()[a], m = v.ia(); if (m!=n && m!=n+1) err();
    double top = -1;
    for (size_t i = 0; i < m; i++) { const Val& q = v.it()[i]; if (!isInt(q, -1)) err(); checkSize(q.n); if (i<n) { ix[a].push_back(q.n); top = std::max(top, q.n); } else top = std::max(top, q.n-1); }
    fr.push_back((size_t)(top+1));
  }
  double t = 1; for (auto s : fr) t*= s; checkSize(t);
  Sh rest(x.sh().begin()+k, x.sh().end()); size_t cs = prod(rest), n = prod(fr); vector<Val> r; Sh g(k, 0);
  vector<vector<vector<size_t>>> by(k); for (size_t a = 0; a < k; a++) { by[a].resize(fr[a]); for (size_t i = 0; i < ix[a].size(); i++) if (ix[a][i]>=0) by[a][(size_t)ix[a][i]].push_back(i); }
  for (size_t q = 0; q < n; q++) {
    Sh ws; size_t m = 1; for (size_t a = 0; a < k; a++) { ws.push_back(by[a][g[a]].size()); m*= ws.back(); }
    vector<Val> it; Sh j(k, 0);
    for (size_t z = 0; z < m; z++) {
      size_t pos = 0; for (size_t a = 0; a < k; a++) pos = pos*x.sh()[a]+by[a][g[a]][j[a]];
      it.insert(it.end(), x.it().begin()+pos*cs, x.it().begin()+(pos+1)*cs);
      for (size_t a = k; a--;) { if (++j[a]<ws[a]) break; j[a] = 0; }
    }
    r.push_back(Val::arr(concat(ws, rest), std::move(it)));
    for (size_t a = k; a--;) { if (++g[a]<fr[a]) break; g[a] = 0; }
  }
  return Val::arr(fr, std::move(r));
}
static Val group1(const Val& x) {
  if (x.rank()!=1) unspec();
  bool anyA = false; for (auto& v : x.it()) anyA|= v.isArr();
  if (!anyA) {
    vector<Val> idx; for (size_t i = 0; i < x.ia(); i++) idx.push_back(Val((double)i));
    return group2(x, list(std::move(idx)));
  }
  Sh s; for (auto& v : x.it()) { if (v.rank()!=1) unspec(); s.push_back(v.ia()); }
  return group2(x, range1(ints(s, {s.size()})));
}

// ---------------------------------------------------------------- by glyph
static const std::set<string> SC1 = {"+","-","×","÷","⋆","√","⌊","⌈","|","¬"}, SC2 = {"+","-","×","÷","⋆","√","⌊","⌈","|","∧","∨","¬","=","≠","<",">","≤","≥"};
Val p1(const string& g, const Val& x) {
  if (SC1.count(g)) return perv1([&](const Val& v) { return s1(g, v); }, x);
  if (g=="⊢" || g=="⊣") return x;
  if (g=="=") return Val((double)x.rank());
  if (g=="≠") return Val(x.rank()? (double)x.sh()[0] : 1.0);
  if (g=="≢") return ints(x.isArr()? x.sh() : Sh(), {x.rank()});
  if (g=="≡") return Val((double)depthV(x));
  if (g=="<") return unitOf(x);
  if (g==">") return merge(x);
  if (g=="⥊") return deshape(x);
  if (g=="∾") return join1(x);
  if (g=="≍") { if (!x.isArr()) return list({x}); return Val::arr(concat({1}, x.sh()), x.it()); }
  if (g=="⋈") return list({x});
  if (g=="↑" || g=="↓") { if (x.rank()==0) err(); vector<Val> r; for (size_t i = 0; i <= x.sh()[0]; i++) r.push_back(firstN(x, i, g=="↓")); return list(std::move(r)); }
  if (g=="↕") return range1(x);
  if (g=="«" || g=="»") return shiftV(g=="»", Val(0), x, true);
  if (g=="⌽") { if (x.rank()==0) err(); size_t n = x.sh()[0], cs = prod(x.sh(), 1); vector<Val> r; for (size_t i = n; i--;) r.insert(r.end(), x.it().begin()+i*cs, x.it().begin()+(i+1)*cs); return Val::arr(x.sh(), std::move(r)); }
  if (g=="⍉") return transpose1(x);
  if (g=="/") return slash1(x);
  if (g=="⍋" || g=="⍒") { if (x.rank()==0) err(); return ints(gradeOf(ordCells(x), g=="⍒"), {x.sh()[0]}); }
  if (g=="∧" || g=="∨") { if (x.rank()==0) err(); vector<size_t> p = gradeOf(ordCells(x), g=="∨"); size_t cs = prod(x.sh(), 1); vector<Val> r; for (size_t i : p) r.insert(r.end(), x.it().begin()+i*cs, x.it().begin()+(i+1)*cs); return Val::arr(x.sh(), std::move(r)); }
  if (g=="⊏") { if (x.rank()==0 || x.sh()[0]==0) err(); return cellOf(x, 0); }
  if (g=="⊑") { if (!x.isArr()) return x; if (x.ia()==0) err(); return x.it()[0]; }
  if (g=="⊐" || g=="⊒" || g=="∊" || g=="⍷") return selfSearch(g, x);
  if (g=="⊔") return group1(x);
  if (g=="!") { if (x.isNum() && x.n==1) return x; err(); }
  fprintf(stderr, "p1 %s\n", g.c_str()); abort();
}
Val p2(const string& g, const Val& w, const Val& x) {
  if (SC2.count(g)) return perv2([&](const Val& a, const Val& b) { return s2(g, a, b); }, w, x);
  if (g=="log") return perv2([&](const Val& a, const Val& b) { return s2(g, a, b); }, w, x);
  if (g=="⊢") return x;
  if (g=="⊣") return w;
  if (g=="≡") return Val((int)matchV(w, x));
  if (g=="≢") return Val((int)!matchV(w, x));
  if (g=="⥊") return reshape(w, x);
  if (g=="∾") return join2(w, x);
  if (g=="≍") { if (!w.isArr() && !x.isArr()) return list({w, x}); Val a = asArr(w), b = asArr(x); if (a.sh()!=b.sh()) err(); vector<Val> r = a.it(); r.insert(r.end(), b.it().begin(), b.it().end()); return Val::arr(concat({2}, a.sh()), std::move(r)); }
  if (g=="⋈") return list({w, x});
  if (g=="↑" || g=="↓") return takeDrop(g=="↑", w, x);
  if (g=="↕") return windows(w, x);
  if (g=="«" || g=="»") return shiftV(g=="»", w, x, false);
  if (g=="⌽") { Val r = asArr(x); vector<double> c = axisArgs(w); if (c.size()>r.rank()) err(); for (size_t i = 0; i < c.size(); i++) r = rotate1(r, i, c[i]); return r; }
  if (g=="⍉") return transpose2(w, x);
  if (g=="/") return slash2(w, x);
  if (g=="⍋" || g=="⍒") return bins(w, x, g=="⍒");
  if (g=="⊏") return select2(w, x);
  if (g=="⊑") return pick2(w, x);
  if (g=="⊐") return indexOf(w, x);
  if (g=="⊒") return progIndex(w, x);
  if (g=="∊") return memberOf(w, x);
  if (g=="⍷") return find2(w, x);
  if (g=="⊔") return group2(w, x);
  if (g=="!") { if (x.isNum() && x.n==1) return x; err(); }
  fprintf(stderr, "p2 %s\n", g.c_str()); abort();
}

// ---------------------------------------------------------------- modifiers
Val each1(const F1& f, const Val& x) {
  if (!x.isArr()) return unitOf(f(x));
  vector<Val> r; for (auto& v : x.it()) r.push_back(f(v)); return Val::arr(x.sh(), std::move(r));
}
Val each2(const F2& f, const Val& w0, const Val& x0) {
  Val w = asArr(w0), x = asArr(x0);
  size_t mr = std::min(w.rank(), x.rank());
  for (size_t i = 0; i < mr; i++) if (w.sh()[i]!=x.sh()[i]) err();
  bool wl = w.rank()>=x.rank(); const Sh& sh = wl? w.sh() : x.sh(); size_t cs = prod(sh, mr), n = prod(sh); vector<Val> r;
  for (size_t i = 0; i < n; i++) r.push_back(wl? f(w.it()[i], x.it()[i/cs]) : f(w.it()[i/cs], x.it()[i]));
  return Val::arr(sh, std::move(r));
}
Val table2(const F2& f, const Val& w0, const Val& x0) {
  Val w = asArr(w0), x = asArr(x0); vector<Val> r;
  for (auto& a : w.it()) for (auto& b : x.it()) r.push_back(f(a, b));
  return Val::arr(concat(w.sh(), x.sh()), std::move(r));
}
static bool identOf(const string& g, Val* r) {
  if (g=="+" || g=="-" || g=="∨" || g=="≠" || g==">") { *r = Val(0); return true; }
  if (g=="×" || g=="÷" || g=="∧" || g=="=" || g=="≥" || g=="⋆" || g=="¬") { *r = Val(1); return true; }
  if (g=="⌊") { *r = Val(INFINITY); return true; } if (g=="⌈") { *r = Val(-INFINITY); return true; }
  return false;
}
Val fold1(const F2& f, const string& name, const Val& x) {
  if (x.rank()!=1) err();
  size_t n = x.ia(); if (n==0) { Val r; if (identOf(name, &r)) return r; err(); }
  Val r = x.it()[n-1]; for (size_t i = n-1; i--;) r = f(x.it()[i], r); return r;
}
Val fold2(const F2& f, const Val& w, const Val& x) { if (x.rank()!=1) err(); Val r = w; for (size_t i = x.ia(); i--;) r = f(x.it()[i], r); return r; }
Val insert1(const F2& f, const string& name, const Val& x) {
  if (x.rank()==0) err();
  size_t n = x.sh()[0];
  if (n==0) { Val r; if (!identOf(name, &r)) unspec(); if (x.rank()>2) unspec(); Sh s = tailSh(x, 1); return reshape(ints(s, {s.size()}), r); }
  Val r = cellOf(x, n-1); for (size_t i = n-1; i--;) r = f(cellOf(x, i), r); return r;
}
Val insert2(const F2& f, const Val& w, const Val& x) { if (x.rank()==0) err(); Val r = w; for (size_t i = x.sh()[0]; i--;) r = f(cellOf(x, i), r); return r; }
Val scan1(const F2& f, const Val& x) {
  if (x.rank()==0) err();
  size_t cs = prod(x.sh(), 1); vector<Val> r; for (size_t i = 0; i < x.ia(); i++) r.push_back(i<cs? x.it()[i] : f(r[i-cs], x.it()[i])); return Val::arr(x.sh(), std::move(r));
}
Val scan2(const F2& f, const Val& w, const Val& x) {
  if (x.rank()==0) err();
  if (w.rank()+1!=x.rank()) err();
  for (size_t i = 1; i < x.rank(); i++) if (w.sh()[i-1]!=x.sh()[i]) err();
  size_t cs = prod(x.sh(), 1); vector<Val> r; for (size_t i = 0; i < x.ia(); i++) r.push_back(f(i<cs? (w.isArr()? w.it()[i] : w) : r[i-cs], x.it()[i])); return Val::arr(x.sh(), std::move(r));
}
static size_t rnk(long k, size_t r) { return k<0? (r+k>(size_t)1<<40 || (long)r+k<0? 0 : r+k) : std::min<size_t>(k, r); }
static Val mergeRes(const Sh& fr, const vector<Val>& c) {
  if (c.empty()) unspec();
  for (auto& v : c) if (v.sh()!=c[0].sh()) err();
  return joinCells(fr, c, c[0].sh());
}
Val rank1(const F1& f, long k, const Val& x) {
  size_t q = rnk(k, x.rank()); Val xa = asArr(x); vector<Val> r;
  if (!x.isArr()) { return mergeRes({}, {f(x)}); }
  for (auto& c : cells(xa, q)) r.push_back(f(c));
  return mergeRes(Sh(xa.sh().begin(), xa.sh().end()-q), r);
}
Val rank2(const F2& f, long kw, long kx, const Val& w, const Val& x) {
  size_t qw = rnk(kw, w.rank()), qx = rnk(kx, x.rank());
  vector<Val> wc = w.isArr()? cells(w, qw) : vector<Val>{w}, xc = x.isArr()? cells(x, qx) : vector<Val>{x};
  Sh wf = w.isArr()? Sh(w.sh().begin(), w.sh().end()-qw) : Sh(), xf = x.isArr()? Sh(x.sh().begin(), x.sh().end()-qx) : Sh();
  size_t mr = std::min(wf.size(), xf.size()); for (size_t i = 0; i < mr; i++) if (wf[i]!=xf[i]) err();
  bool wl = wf.size()>=xf.size(); const Sh& fr = wl? wf : xf; size_t cs = prod(fr, mr), n = prod(fr); vector<Val> r;
  for (size_t i = 0; i < n; i++) r.push_back(wl? f(wc[i], xc[i/cs]) : f(wc[i/cs], xc[i]));
  return mergeRes(fr, r);
}
static bool atDepth(long k, const Val& x) { return k>=0? depthV(x)<=k : false; }
Val depth1(const F1& f, long k, const Val& x) {
  if (k<0) unspec();
  if (atDepth(k, x) || !x.isArr()) return f(x);
  return each1([&](const Val& v) { return depth1(f, k, v); }, x);
}
Val depth2(const F2& f, long kw, long kx, const Val& w, const Val& x) {
  if (kw<0 || kx<0) unspec();
  bool a = atDepth(kw, w) || !w.isArr(), b = atDepth(kx, x) || !x.isArr();
  if (a && b) return f(w, x);
  if (a) return each1([&](const Val& v) { return depth2(f, kw, kx, w, v); }, x);
  if (b) return each1([&](const Val& v) { return depth2(f, kw, kx, v, x); }, w);
  return each2([&](const Val& p, const Val& q) { return depth2(f, kw, kx, p, q); }, w, x);
}
}
