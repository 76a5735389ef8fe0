// •bit: casts and operations against a model on bits.
#include "gen.hpp"
using namespace bq;
typedef vector<char> Bits;
static BV field(const char* n) { static std::map<string, BV> m; auto it = m.find(n); if (it!=m.end()) return it->second; BV r; if (cb_field(fnOf("•bit"), n, &r)) { fprintf(stderr, "no •bit._%s\n", n); _exit(4); } return m[n] = r; }
static BV derive(const char* n, const Val& f) { BV r; if (cb_m1(field(n), toB(f), &r)) { fprintf(stderr, "cannot derive •bit._%s\n", n); _exit(4); } return r; }
static void push(Bits& b, uint64_t v, int w) { for (int i = 0; i < w; i++) b.push_back(i<64? v>>i&1 : 0); }
static uint64_t take(const Bits& b, size_t at, int w) { uint64_t r = 0; for (int i = 0; i < w; i++) r|= (uint64_t)b[at+i]<<i; return r; }
static Bits bitsOf(const Val& v, int w) { Bits b; for (auto& e : v.it()) { if (e.isChr()) push(b, e.c, w); else if (w==64) { uint64_t u; double d = e.n; memcpy(&u, &d, 8); push(b, u, 64); } else push(b, (uint64_t)(int64_t)e.n, w); } return b; }
// false: the bits are no number of that type
static bool valuesOf(const Bits& b, int w, bool chr, vector<Val>* r) { r->clear(); for (size_t i = 0; i+w <= b.size(); i+= w) { uint64_t u = take(b, i, w); if (w==64) { double d; memcpy(&d, &u, 8); if (d!=d) return false; r->push_back(Val(d)); } else if (chr) { if (u>0x10ffff) return false; r->push_back(Val::chr(u)); } else if (w==1) r->push_back(Val((double)u)); else r->push_back(Val((double)((int64_t)(u<<(64-w))>>(64-w)))); } return true; }
static Outcome good(const Val& v) { Outcome o; o.v = v; return o; } static Outcome bad() { Outcome o; o.err = true; return o; }
static Sh shp(const Val& v) { return Sh(v.a->sh.begin(), v.a->sh.end()); }
static vector<double> alphabet(int w, bool chr) { if (chr) return w==8? vector<double>{0, 1, 97, 128, 255} : w==16? vector<double>{0, 1, 256, 0x8000, 0xffff} : vector<double>{0, 1, 97, 0x10000, 0x10ffff}; switch (w) { case 1: return {0, 1}; case 8: return {0, 1, -1, -128, 127, 85}; case 16: return {0, -1, 256, -32768, 32767, 0x55aa}; case 32: return {0, -1, 65536, -2147483648.0, 2147483647, 1431655765}; default: return {0, 1, -1, 0.5, 1e300, -INFINITY, 4503599627370497.0, 5e-324}; } }
// values of a width: 0: cycling through the alphabet, others constant or one different
static Val mk(int w, bool chr, const Sh& sh, int pat) { auto A = alphabet(w, chr); size_t n = 1; for (auto s : sh) n*= s; vector<Val> v; for (size_t i = 0; i < n; i++) { double d = A[pat==0? (i*7+i/3)%A.size() : pat==1? A.size()-1-(i%A.size()) : i==n-1? 1 : 0]; v.push_back(chr? Val::chr((uint32_t)d) : Val(d)); } Val r = Val::arr(sh, v); if (n==0) { r = Val::arr(sh, {}); if (chr) r.a->fs = Val::str("")  .a->fs; } return r; }
static Val spec(int w, int ty) { return ty==0? Val((double)w) : Val::vec({Val((double)w), Val::chr(" iufc"[ty])}); }
static void cast(Ex& ex) {
  static const vector<int> W = {1, 8, 16, 32, 64, 2, 0}; static const vector<Sh> S = {{1}, {2}, {8}, {7}, {64}, {65}, {128}, {0}, {2, 8}, {3, 4}, {2, 3, 64}, {2, 0}, {0, 8}, {3, 1}};
  int w0 = ex.of(W), t0 = ex.pick(5), w1 = ex.of(W), t1 = ex.pick(5); Sh sh = ex.of(S); int chr = ex.pick(2); if (!ex.thorough && (t0>1 || t1>1) && sh.size()==1 && sh[0]>64) return; bool inv = ex.flag();
  auto valid = [](int w, int t) { return t==0? w==1 || w==8 || w==16 || w==32 || w==64 : t==1? w==8 || w==16 || w==32 : t==2? w==1 : t==3? w==64 : w==8 || w==16 || w==32; };
  BV f = derive("cast", inv? Val::vec({spec(w1, t1), spec(w0, t0)}) : Val::vec({spec(w0, t0), spec(w1, t1)})), g = f; if (inv) { g = derive1("⁼", f); cb_dec(f); }
  for (int pat = 0; pat < (ex.thorough? 3 : 2); pat++) {
    if (!valid(w0, t0) || !valid(w1, t1)) { all1(ex, mc::strf("•bit._cast from %s to %s", show(spec(w0, t0)).c_str(), show(spec(w1, t1)).c_str()), g, mk(8, chr, sh, pat), bad(), 0); continue; }
    if (chr && t0==0 && (w0==1 || w0==64)) { if (sh.back()*w0%w1==0 && shp(mk(8, 1, sh, pat)).size() && mk(8, 1, sh, pat).ia()) all1(ex, "•bit._cast of characters", g, mk(8, 1, sh, pat), bad(), 0); break; }
    if ((t0==4)!=(chr && t0!=0? true : t0==4 && chr)) break; if (t0 && t0!=4 && chr) break; if (t0==4 && !chr) break;
    Val x = mk(w0, chr, sh, pat); size_t row = sh.back()*w0; Outcome e; Bits b = bitsOf(x, w0); if (row%w1) e = bad(); else { vector<Val> v; if (!valuesOf(b, w1, t1==4, &v)) continue; Sh rs = sh; rs.back() = row/w1; Val r = Val::arr(rs, v); if (v.empty()) { r = mk(w1, t1==4, rs, 0); } e = good(r); }
    for (auto& rp : repsOf(x, 2)) call1(ex, mc::strf("%s•bit._cast%s from %s to %s", inv? "(" : "", inv? "⁼)" : "", show(spec(w0, t0)).c_str(), show(spec(w1, t1)).c_str()), g, x, rp, e);
  }
  cb_dec(g); sharedIntact(ex); ex.outcome(w0*1000+w1*10+t0+t1*77+sh.size()*5000);
}
static uint64_t msk(int w) { return w==64? ~0ull : (1ull<<w)-1; }
static void unary(Ex& ex) {
  static const vector<int> OW = {1, 2, 4, 8, 16, 32, 64, 128}, W = {1, 8, 16, 32, 64, 4}; int op = ex.pick(2), ow = ex.of(OW), rw = ex.of(W), xw = ex.of(W); static const vector<Sh> S = {{1}, {2}, {8}, {7}, {64}, {65}, {128}, {200}, {0}, {2, 8}, {3, 64}, {2, 0}}; Sh sh = ex.of(S); const char* n = op? "neg" : "not"; BV f = derive(n, Val::vec({Val((double)ow), Val((double)rw), Val((double)xw)}));
  for (int chr = 0; chr < (xw>=8 && xw<=32? 2 : 1); chr++) for (int pat = 0; pat < 3; pat++) { Val x = mk(xw==4? 8 : xw, chr, sh, pat); size_t row = sh.back()*xw; Outcome e; if (row%ow || row%rw || xw==4 || rw==4 || (op && (ow<8 || ow>64))) e = bad(); else { Bits b = bitsOf(x, xw), q = b; if (!op) for (auto& c : q) c^= 1; else for (size_t i = 0; i < b.size(); i+= ow) { uint64_t u = -take(b, i, ow)&msk(ow); for (int k = 0; k < ow; k++) q[i+k] = u>>k&1; } vector<Val> v; if (!valuesOf(q, rw, false, &v)) continue; Sh rs = sh; rs.back() = row/rw; e = good(v.empty()? mk(rw, false, rs, 0) : Val::arr(rs, v)); }
    for (auto& rp : repsOf(x, xw==64? 0 : 2)) call1(ex, mc::strf("•bit._%s with %d→%d (%d)", n, xw, rw, ow), f, x, rp, e); }
  cb_dec(f); sharedIntact(ex); ex.outcome(op+ow*10+rw*1000+xw*100000);
}
static void binary(Ex& ex) {
  static const vector<const char*> N = {"and", "or", "xor", "add", "sub", "mul"}; static const vector<int> OW = {1, 2, 8, 16, 32, 64, 128}, W = {1, 8, 16, 32, 64}; int op = ex.pick(6), ow = ex.of(OW), rw = ex.of(W), xw = ex.of(W), ww = ex.of(W); static const vector<Sh> S = {{}, {1}, {2}, {8}, {7}, {64}, {65}, {128}, {0}, {2, 8}, {3, 64}, {3, 1}}; Sh xs = ex.of(S); BV f = derive(N[op], Val::vec({Val((double)ow), Val((double)rw), Val((double)xw), Val((double)ww)}));
  for (const Sh& ws : S) for (int pat = 0; pat < 2; pat++) { if (!ex.thorough && xs.size()>1 && ws.size()==1 && pat) continue; if (!ex.thorough && (xs!=ws) && xs.size() && ws.size() && (xs.back()*xw!=ws.back()*ww) && ws.back()*ww!=(size_t)ow && xs.back()*xw!=(size_t)ow && pat) continue;
    Val x = mk(xw, false, xs, pat), w = mk(ww, false, ws, pat^1); size_t s = ww*(ws.empty()? 1 : ws.back()), t = xw*(xs.empty()? 1 : xs.back()); Outcome e; Bits B = bitsOf(x, xw), A = bitsOf(w, ww); Sh rs; size_t row = 0; bool err = false;
    if (ws.empty() && xs.empty()) err = true; else if (ws.size()==xs.size() && s==t) { rs = xs; row = t; for (size_t i = 0; i+1 < xs.size(); i++) if (xs[i]!=ws[i]) err = true; }
    else if (ws.size()<=1 && s==(size_t)ow && xs.size()) { rs = xs; row = t; if (ow>64) err = true; Bits a; while (a.size()<B.size()) a.insert(a.end(), A.begin(), A.end()); A = a; } else if (xs.size()<=1 && t==(size_t)ow && ws.size()) { rs = ws; row = s; if (ow>64) err = true; Bits b; while (b.size()<A.size()) b.insert(b.end(), B.begin(), B.end()); B = b; } else err = true;
    if (!err && (row%ow || row%rw || (op>=3 && (ow<8 || ow>64)))) err = true;
    if (err) e = bad(); else { if (A.size()!=B.size()) A.resize(B.size()); Bits q(A.size()); for (size_t i = 0; i < q.size(); i++) q[i] = op==0? A[i]&B[i] : op==1? A[i]|B[i] : A[i]^B[i]; if (op>=3) for (size_t i = 0; i < q.size(); i+= ow) { uint64_t a = take(A, i, ow), b = take(B, i, ow), r = (op==3? a+b : op==4? a-b : a*b)&msk(ow); for (int k = 0; k < ow; k++) q[i+k] = r>>k&1; } vector<Val> v; if (!valuesOf(q, rw, false, &v)) continue; rs.back() = row/rw; e = good(v.empty()? mk(rw, false, rs, 0) : Val::arr(rs, v)); }
    string what = mc::strf("•bit._%s with %d,%d→%d (%d)", N[op], ww, xw, rw, ow); all2(ex, what, f, w, x, e, 0, 0); if (ex.thorough && ws.size()) for (auto& rp : repsOf(x, 1)) call2(ex, what, f, w, repsOf(w, 1)[0], x, rp, e); ex.tick(); }
  cb_dec(f); sharedIntact(ex); ex.outcome(op+ow*10+rw*1000+xw*100000+ww*1000003);
}
static void wrong(Ex& ex) { // what is no number (or character) cannot be cast or computed with
  vector<Val> X = {Val::vec({Val::str("ab")}), Val::vec({Val(1), Val::chr('a')}), Val::vec({Val::vec({Val(1)}), Val(2)}), Val::arr({1, 1}, {Val::vec({Val(1), Val(2)})}), Val(5), Val::chr('a'), Val::arr({}, {Val(1)})}; const Val& x = X[ex.pick(X.size())]; int w = ex.of(vector<int>{1, 8, 16, 32, 64}), r = ex.of(vector<int>{1, 8, 16, 32, 64}), k = ex.pick(9); Outcome e = bad(); static const char* N[] = {"cast", "not", "neg", "and", "or", "xor", "add", "sub", "mul"};
  bool simple = !x.isArr() || x.rank()==0; BV f = derive(N[k], k==0? Val::vec({Val((double)w), Val((double)r)}) : Val::vec({Val((double)w), Val((double)r), Val((double)w)})); string what = mc::strf("•bit._%s with %d→%d", N[k], w, r); if (k<3) { all1(ex, what, f, x, e, 1); } else if (!simple) { all2(ex, what, f, x, x, e, 0, 0); all2(ex, what, f, Val::vec({Val(1)}), x, e, 0, 0); } cb_dec(f); sharedIntact(ex);
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C25"; c.assumptions = {"bit patterns of NaNs are not used, and numbers that do not fit the width are left unspecified"};
  c.init = []() { cb_init(); fnOf("•bit"); for (auto f : {"cast", "not", "neg", "and", "or", "xor", "add", "sub", "mul"}) field(f); cb_gc(); };
  c.perRun = gcEvery(64);
  c.sc = {{"cast", 3, cast, 3, "all pairs of 7 widths × 5 kinds, 14 shapes, all representations, and backwards"},
          {"unary", 3, unary, 3, "not and neg: 8 operation widths × 6 × 6 widths, 12 shapes, all representations"},
          {"binary", 4, binary, 3, "6 operations × 7 operation widths × 5³ widths × 12×12 shapes"},
          {"wrong", 2, wrong, 3, "values that are neither numbers nor characters"}};
  return mainMC(argc, argv, c);
}
