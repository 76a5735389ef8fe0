// The embedding interface (include/bqnffi.h): making, reading, calling, evaluating and binding against the model values; what is made is held until freed and freed then.
#include "gen.hpp"
#include "bqnffi.h"
using namespace bq;
static Outcome good(const Val& v) { Outcome o; o.v = v; return o; }
static void is(Ex& ex, const string& what, BV r, const Val& e) { ex.op(); ex.compared(); string why; if (!wellFormed(r, &why)) ex.fail("%s\n  gives a malformed value: %s", what.c_str(), why.c_str()); if (!same(r, e)) ex.fail("%s\n  gives    %s\n  expected %s", what.c_str(), show(fromB(r)).c_str(), show(e).c_str()); }
static uint64_t heap0; static void begin(bool gc = false) { if (gc) cb_gc(); heap0 = cb_heap_used(); }
static void end(Ex& ex, const string& what) { uint64_t h = cb_heap_used(); if (h!=heap0) { cb_gc(); uint64_t g = cb_heap_used(); if (g!=heap0 || h>heap0) ex.fail("%s\n  leaves the heap with %lld bytes more (%lld after a collection) once everything was freed", what.c_str(), (long long)(h-heap0), (long long)(g-heap0)); } ex.compared(); }
enum { K_I8, K_I16, K_I32, K_F64, K_C8, K_C16, K_C32, K_OBJ, K_N };
static const char* KN[] = {"I8", "I16", "I32", "F64", "C8", "C16", "C32", "Obj"};
static const int KW[] = {1, 2, 4, 8, 1, 2, 4, 8};
static const vector<double> ALPHA[] = {{0, 1, -1, -128, 127, 2}, {0, 1, -1, 128, -129, 32767, -32768}, {0, 1, -32769, 32768, 2147483647, -2147483648.0}, {0, 1, 0.5, -1e300, INFINITY, -0.0, 4503599627370497.0, 5e-324}, {0, 'a', 127, 128, 255}, {0, 'a', 255, 256, 0xd7ff, 0xffff}, {0, 'a', 256, 0x10000, 0x10ffff}};
static Val item(int k, size_t i, int pat, int upto) { // upto: the alphabet whose values are used
  if (k==K_OBJ) { static const vector<Val> V = {Val(1), Val::chr('a'), Val::vec({Val(1), Val(2)}), Val::str("é"), Val(0.5), Val::vec({}), Val::arr({1, 2}, {Val(3), Val::vec({Val(4)})})}; return pat==1? Val((double)(i%2)) : pat==2? Val::chr(97+i%3) : V[(i*3+pat)%V.size()]; }
  auto& A = ALPHA[upto]; double d = pat==0? A[(i*5+i/4)%A.size()] : pat==1? A[A.size()-1-i%2] : (double)(i%2); return k>=K_C8? Val::chr((uint32_t)d) : Val(d); }
static Val value(int k, const Sh& sh, int pat, int upto) { size_t n = 1; for (auto s : sh) n*= s; vector<Val> v; for (size_t i = 0; i < n; i++) v.push_back(item(k, i, pat, upto)); Val r = Val::arr(sh, v); return r; }
static vector<unsigned char> raw(int k, const Val& v) { vector<unsigned char> b; for (auto& e : v.it()) { double n = e.isChr()? e.c : e.n; int64_t i = k==K_F64? 0 : (int64_t)n; const void* p = &i; if (k==K_F64) p = &n; b.insert(b.end(), (const unsigned char*)p, (const unsigned char*)p+KW[k]); } return b; }
static BV mkArr(int k, size_t r, const size_t* sh, const void* d) { switch (k) { case K_I8: return bqn_makeI8Arr(r, sh, (int8_t*)d); case K_I16: return bqn_makeI16Arr(r, sh, (int16_t*)d); case K_I32: return bqn_makeI32Arr(r, sh, (int32_t*)d); case K_F64: return bqn_makeF64Arr(r, sh, (double*)d); case K_C8: return bqn_makeC8Arr(r, sh, (uint8_t*)d); case K_C16: return bqn_makeC16Arr(r, sh, (uint16_t*)d); case K_C32: return bqn_makeC32Arr(r, sh, (uint32_t*)d); default: return bqn_makeObjArr(r, sh, (BQNV*)d); } }
static BV mkVec(int k, size_t n, const void* d) { switch (k) { case K_I8: return bqn_makeI8Vec(n, (int8_t*)d); case K_I16: return bqn_makeI16Vec(n, (int16_t*)d); case K_I32: return bqn_makeI32Vec(n, (int32_t*)d); case K_F64: return bqn_makeF64Vec(n, (double*)d); case K_C8: return bqn_makeC8Vec(n, (uint8_t*)d); case K_C16: return bqn_makeC16Vec(n, (uint16_t*)d); case K_C32: return bqn_makeC32Vec(n, (uint32_t*)d); default: return bqn_makeObjVec(n, (BQNV*)d); } }
static const vector<Sh> SHAPES = {{0}, {1}, {2}, {7}, {8}, {9}, {33}, {64}, {200}, {}, {1, 1}, {2, 3}, {0, 3}, {3, 0}, {4, 16}, {2, 3, 4}, {2, 0, 4}, {1, 1, 1, 1, 3}};
static void use(Ex& ex, const string& what, BV b, const Val& v) { // what was made behaves like the value it equals
  static const char* F[] = {"⌽⥊", "≍˜", "⟨0⟩∾⥊", "≡"}; for (int i = 0; i < 4; i++) { Outcome e; BV f = fnOf(F[i]); BV r; int rc = cb_c1(f, cb_inc(b), &r); BV q = toB(v), s; int rd = cb_c1(f, q, &s); ex.op(); ex.compared(); if (rc!=rd) ex.fail("%s: %s of it %s", what.c_str(), F[i], rc? "is an error" : "is no error"); if (!rc) { Val t = fromB(s); if (!same(r, t)) ex.fail("%s: %s of it gives %s, expected %s", what.c_str(), F[i], show(fromB(r)).c_str(), show(t).c_str()); cb_dec(r); cb_dec(s); } }
}
static void makes(Ex& ex) {
  int k = ex.pick(K_N), vec = ex.pick(2); const Sh& sh = ex.of(SHAPES); if (vec && sh.size()!=1) return; int pat = ex.pick(3), upto = k==K_OBJ? 0 : k; Val v = value(k, sh, pat, upto); size_t n = v.ia(); string what = mc::strf("bqn_make%s%s of %s", KN[k], vec? "Vec" : "Arr", show(v).c_str()); begin();
  vector<unsigned char> d; vector<BV> own, refs; if (k==K_OBJ) { for (auto& e : v.it()) own.push_back(toB(e)); refs = own; for (auto& e : own) cb_inc(e); d.resize(8*n); memcpy(d.data(), own.data(), 8*n); } else d = raw(k, v);
  vector<size_t> s(sh.begin(), sh.end()); d.push_back(0x55); BV b = vec? mkVec(k, n, d.data()) : mkArr(k, s.size(), s.data(), d.data()); for (auto& c : d) c = 0xa5; for (auto& c : s) c = 77; // the buffers are the caller's again
  is(ex, what, b, v); if (cb_rank(b)!=(int)sh.size() || cb_ia(b)!=n) ex.fail("%s\n  has another shape", what.c_str()); if (ex.thorough || pat==0) use(ex, what, b, v); BV c = bqn_copy(b); bqn_free(b); is(ex, what+" (a copy, the original freed)", c, v); bqn_free(c);
  if (k==K_OBJ) { for (size_t i = 0; i < n; i++) { if (!same(refs[i], v.it()[i])) ex.fail("%s\n  changed its element %zu", what.c_str(), i); if (v.it()[i].isArr() && v.it()[i].ia() && cb_refc(refs[i])!=1) ex.fail("%s\n  leaves element %zu with %d references after everything else was freed", what.c_str(), i, cb_refc(refs[i])); cb_dec(refs[i]); } }
  end(ex, what); ex.outcome(hashS(what));
}
static const unsigned char CAN = 0xc3;
static void readOne(Ex& ex, const string& what, BV b, const Val& v, int k) {
  size_t n = v.ia(); vector<unsigned char> buf(64+n*KW[k]+64, CAN); void* p = buf.data()+64;
  switch (k) { case K_I8: bqn_readI8Arr(b, (int8_t*)p); break; case K_I16: bqn_readI16Arr(b, (int16_t*)p); break; case K_I32: bqn_readI32Arr(b, (int32_t*)p); break; case K_F64: bqn_readF64Arr(b, (double*)p); break; case K_C8: bqn_readC8Arr(b, (uint8_t*)p); break; case K_C16: bqn_readC16Arr(b, (uint16_t*)p); break; case K_C32: bqn_readC32Arr(b, (uint32_t*)p); break; default: bqn_readObjArr(b, (BQNV*)p); }
  ex.op(); ex.compared(); for (size_t i = 0; i < 64; i++) if (buf[i]!=CAN || buf[64+n*KW[k]+i]!=CAN) ex.fail("%s\n  writes outside of the buffer", what.c_str());
  if (k==K_OBJ) { for (size_t i = 0; i < n; i++) { BV e; memcpy(&e, (char*)p+8*i, 8); if (!same(e, v.it()[i])) ex.fail("%s\n  gives %s at %zu, expected %s", what.c_str(), show(fromB(e)).c_str(), i, show(v.it()[i]).c_str()); bqn_free(e); } return; }
  auto w = raw(k, v); for (size_t i = 0; i < w.size(); i++) if (w[i]!=((unsigned char*)p)[i]) { if (k==K_F64) { double a, c; memcpy(&a, (char*)p+i/8*8, 8); memcpy(&c, w.data()+i/8*8, 8); if (a==c) continue; } ex.fail("%s\n  gives byte %02x at %zu, expected %02x", what.c_str(), ((unsigned char*)p)[i], i, w[i]); }
}
static bool bufFits(int k, const Val& v) { if (k==K_OBJ) return true; for (auto& e : v.it()) { if (e.isArr() || (k>=K_C8)!=e.isChr()) return false; if (k>=K_C8) { if (k==K_C8 && e.c>255) return false; if (k==K_C16 && e.c>65535) return false; } else if (k!=K_F64) { double lim = k==K_I8? 128 : k==K_I16? 32768 : 2147483648.0; if (!(e.n>=-lim && e.n<lim) || e.n!=floor(e.n)) return false; } } return true; }
static void reads(Ex& ex) { // into every buffer its values fit, from every way of storing it
  int k = ex.pick(K_N), u = ex.pick(7); const Sh& sh = ex.of(SHAPES); int pat = ex.pick(3); Val v = value(k==K_OBJ? (u<4? K_F64 : K_C32) : k, sh, pat, u); if (k==K_OBJ && pat==1) v = value(K_OBJ, sh, u, 0); if (k!=K_OBJ && (u>=K_C8)!=(k>=K_C8)) return; if (!bufFits(k, v)) return;
  vector<Val> vs = {v}; if (v.ia()==0) { vs.push_back(Val::arr(sh, {})); vs.push_back(Val::arr(sh, {})); vs[2].a->fs = Val::str("").a->fs; }
  for (auto& x : vs) for (auto& rp : repsOf(x, 2)) { begin(); BV b = toB(x, rp); int rc = cb_refc(b); string what = mc::strf("bqn_read%sArr of %s [%s]", KN[k], show(x).c_str(), rp.str().c_str()); readOne(ex, what, b, x, k); if (cb_refc(b)!=rc) ex.fail("%s\n  leaves it with %d references instead of %d", what.c_str(), cb_refc(b), rc); is(ex, what+", its argument afterwards", b, x); readOne(ex, what+" (again)", b, x, k); bqn_free(b); end(ex, what); ex.outcome(hashS(what)); }
}
static vector<Val> values() { static vector<Val> r; if (r.empty()) { for (auto& sh : SHAPES) for (int k = 0; k < K_N; k++) for (int pat = 0; pat < 2; pat++) r.push_back(value(k, sh, pat, k==K_OBJ? 0 : k)); r.push_back(Val::str("hello")); r.push_back(Val::vec({Val(1), Val(0), Val(1)})); } return r; }
static void looks(Ex& ex) { // bound, rank, shape, pick, type and the direct pointers
  const Val v = ex.of(values()); for (auto& rp : repsOf(v, 2)) { begin(); BV b = toB(v, rp); int rc = cb_refc(b); string what = mc::strf("%s [%s]", show(v).c_str(), rp.str().c_str()); ex.op();
    if (bqn_bound(b)!=v.ia()) ex.fail("bqn_bound of %s is %zu", what.c_str(), bqn_bound(b)); if (bqn_rank(b)!=v.rank()) ex.fail("bqn_rank of %s is %zu", what.c_str(), bqn_rank(b)); vector<size_t> s(v.rank()+2, 99); bqn_shape(b, s.data()+1); if (s[0]!=99 || s.back()!=99) ex.fail("bqn_shape of %s writes outside of the buffer", what.c_str()); for (size_t i = 0; i < v.rank(); i++) if (s[i+1]!=v.a->sh[i]) ex.fail("bqn_shape of %s gives %zu at %zu", what.c_str(), s[i+1], i);
    if (bqn_type(b)!=0) ex.fail("bqn_type of %s is %d", what.c_str(), bqn_type(b)); for (size_t i = 0; i < v.ia(); i++) { BV e = bqn_pick(b, i); is(ex, mc::strf("bqn_pick of %s at %zu", what.c_str(), i), e, v.it()[i]); bqn_free(e); }
    BQNElType t = bqn_directArrType(b); const void* p = nullptr; int k = -1; switch (t) { case elt_i8: p = bqn_directI8(b); k = K_I8; break; case elt_i16: p = bqn_directI16(b); k = K_I16; break; case elt_i32: p = bqn_directI32(b); k = K_I32; break; case elt_f64: p = bqn_directF64(b); k = K_F64; break; case elt_c8: p = bqn_directC8(b); k = K_C8; break; case elt_c16: p = bqn_directC16(b); k = K_C16; break; case elt_c32: p = bqn_directC32(b); k = K_C32; break; default: break; }
    if (k>=0 && v.ia()) { if (!bufFits(k, v)) ex.fail("bqn_directArrType of %s is %s", what.c_str(), KN[k]); auto w = raw(k, v); if (memcmp(w.data(), p, w.size())) { for (size_t i = 0; i < v.ia(); i++) if (k!=K_F64 || ((double*)p)[i]!=v.it()[i].n) ex.fail("bqn_direct%s of %s differs at %zu", KN[k], what.c_str(), i); } }
    ex.compared(3); if (cb_refc(b)!=rc) ex.fail("looking at %s leaves it with %d references instead of %d", what.c_str(), cb_refc(b), rc); bqn_free(b); end(ex, "looking at "+what); ex.outcome(hashS(what)+t); }
}
static void atoms(Ex& ex) {
  static const vector<double> N = {0, -0.0, 1, -1, 0.1, 1e300, -5e-324, INFINITY, -INFINITY, 2147483648.0, 9007199254740993.0, NAN}; static const vector<uint32_t> C = {0, 'a', 127, 128, 255, 256, 65535, 65536, 0x10ffff}; begin();
  for (double d : N) { BV b = bqn_makeF64(d); auto eq = [&](double e) { return memcmp(&d, &e, 8)==0 || (d!=d && e!=e); }; if (!eq(bqn_readF64(b)) || bqn_type(b)!=1) ex.fail("bqn_makeF64(%g) reads as %g, type %d", d, bqn_readF64(b), bqn_type(b)); BV c = bqn_copy(b); bqn_free(b); if (!eq(bqn_toF64(c))) ex.fail("bqn_toF64 of %g", d); ex.op(4); ex.compared(3); }
  for (uint32_t d : C) { BV b = bqn_makeChar(d); if (bqn_readChar(b)!=d || bqn_type(b)!=2) ex.fail("bqn_makeChar(%u) reads as %u, type %d", d, bqn_readChar(b), bqn_type(b)); BV c = bqn_copy(b); bqn_free(b); if (bqn_toChar(c)!=d) ex.fail("bqn_toChar of %u", d); ex.op(4); ex.compared(3); }
  const char* T[] = {"5", "@", "⟨⟩", "+", "{𝕩}", "1⊸+", "+´", "+∘-", "+‿-", "¨", "∘", "˙"}; const int TY[] = {1, 2, 0, 3, 3, 3, 3, 3, 0, 4, 5, 4}; for (int i = 0; i < 12; i++) { if (i==8) continue; BV f = fnOf(T[i]); if (bqn_type(f)!=TY[i]) ex.fail("bqn_type of %s is %d, expected %d", T[i], bqn_type(f), TY[i]); ex.compared(); }
  end(ex, "atoms");
}
static const vector<const char*> FN = {"5", "@", "\"ab\"", "+", "⌽", "∾", "≍", "⊣", "⊢", "{𝕩}", "{⟨𝕩,𝕩⟩}", "{⟨𝕩,1⟩∾𝕨}", "1⊸∾", "∾⟜\"q\"", "⟨⟩˙", "∾⌽", "≍∘⌽", "{a←𝕩⋄a∾a}"};
static void calls(Ex& ex) { // like the function's own call, arguments stay the caller's
  const char* fs = ex.of(FN); const Val x = values()[ex.pick(values().size()/(ex.thorough? 1 : 3))*(ex.thorough? 1 : 3)]; static const vector<Val> W = {Val(1), Val::chr('b'), Val::vec({Val(1), Val(2)}), Val::str("xyz"), Val::vec({Val::vec({Val(1)})})}; int wi = ex.pick(W.size()+1)-1; BV f; f = fnOf(string(fs));
  for (auto& rp : repsOf(x, ex.thorough? 2 : 1)) { BV b = toB(x, rp), w = wi>=0? toB(W[wi]) : 0, r; string what = mc::strf("bqn_call%d of %s on %s%s [%s]", wi>=0? 2 : 1, fs, wi>=0? (show(W[wi])+" and ").c_str() : "", show(x).c_str(), rp.str().c_str()); int rc = wi>=0? cb_c2(f, cb_inc(w), cb_inc(b), &r) : cb_c1(f, cb_inc(b), &r); if (rc) { cb_dec(b); if (wi>=0) cb_dec(w); continue; }
    Val e = fromB(r); cb_dec(r); begin(); int fc = cb_kind(f)==CK_ARR? cb_refc(f) : 0, bc = cb_refc(b); BV q = wi>=0? bqn_call2(f, w, b) : bqn_call1(f, b); is(ex, what, q, e); is(ex, what+", its 𝕩 afterwards", b, x); if (wi>=0) is(ex, what+", its 𝕨 afterwards", w, W[wi]); bqn_free(q); if (cb_refc(b)!=bc) ex.fail("%s\n  leaves its argument with %d references instead of %d", what.c_str(), cb_refc(b), bc); if (fc && cb_refc(f)!=fc) ex.fail("%s\n  leaves the called value with other references", what.c_str()); end(ex, what); bqn_free(b); if (wi>=0) bqn_free(w); ex.outcome(hashS(what)); }
}
// --- bound functions
static Ex* cur; static Val bObj, bW, bX; static bool bTwo, bEval; static int bCalls; static vector<Val> bXs, bWs;
static BQNV cb(BQNV obj, BQNV w, BQNV x, bool two) { // what happens inside a bound function
  bCalls++; if (two!=bTwo) throw mc::Failure{"", "the bound function is called with another number of arguments"}; if (!same(obj, bObj)) throw mc::Failure{"", mc::strf("the bound object is %s instead of %s", show(fromB(obj)).c_str(), show(bObj).c_str())}; bXs.push_back(fromB(x)); if (two) bWs.push_back(fromB(w));
  if (bEval) { BQNV r = bqn_evalCStr("a ← ↕ 10 ⋄ ⌽ a"); if (bqn_bound(r)!=10) throw mc::Failure{"", "bqn_evalCStr inside of a bound function"}; bqn_free(r); cb_gc(); }
  BQNV l[3] = {bqn_copy(obj), bqn_copy(x), two? bqn_copy(w) : bqn_makeF64(7)}; BQNV r = bqn_makeObjVec(3, l); bqn_free(obj); bqn_free(x); if (two) bqn_free(w); return r;
}
static BQNV cb1(BQNV obj, BQNV x) { return cb(obj, 0, x, false); } static BQNV cb2(BQNV obj, BQNV w, BQNV x) { return cb(obj, w, x, true); }
static Val bres(const Val* w, const Val& x) { Val r = Val::vec({bObj, x, w? *w : Val(7)}); return r; }
static void bounds(Ex& ex) {
  static const vector<Val> O = {Val(3), Val::chr('c'), Val::str("obj"), Val::vec({Val::vec({Val(1)}), Val(2)}), Val::vec({}), Val::arr({2, 2}, {Val(1), Val(2), Val(3), Val(4)})}; bObj = ex.of(O); bTwo = ex.flag(); bEval = ex.flag(); static const vector<Val> X = {Val(1), Val::vec({Val(1), Val(2), Val(3)}), Val::str("ab"), Val::vec({}), Val::arr({2, 2}, {Val(1), Val::chr('a'), Val::vec({Val(5)}), Val(0)})}; Val x = ex.of(X), w = bTwo? ex.of(X) : Val(); int how = ex.pick(7); for (auto& orp : repsOf(bObj, 1)) {
  begin(true); { BV o = toB(bObj, orp); int oc = bObj.isArr()? cb_refc(o) : 0; BV f = bTwo? bqn_makeBoundFn2(cb2, o) : bqn_makeBoundFn1(cb1, o); if (oc && cb_refc(o)!=oc+1) ex.fail("a bound function holds its object %d times", cb_refc(o)-oc); bool early = how&1; if (early) bqn_free(o); if (bqn_type(f)!=3) ex.fail("bqn_type of a bound function is %d", bqn_type(f));
  bCalls = 0; bXs.clear(); bWs.clear(); BV xb = toB(x), wb = bTwo? toB(w) : 0, r = 0; Val e; int calls = 1; BV d = bqn_copy(f); string hs; int rc = 0; bool arr = x.isArr();
  switch (how) {
    case 0: case 1: hs = "called"; r = bTwo? bqn_call2(f, wb, xb) : bqn_call1(f, xb); e = bres(bTwo? &w : nullptr, x); break;
    case 2: { hs = "¨"; BV g = derive1("¨", f); r = 0; if (bTwo) { BV h = toB(Val(9)); r = bqn_call2(g, h, xb); bqn_free(h); Val nine(9); e = each1([&](const Val& a) { return bres(&nine, a); }, x); } else { r = bqn_call1(g, xb); e = each1([&](const Val& a) { return bres(nullptr, a); }, x); } cb_dec(g); calls = arr? x.ia() : 1; if (arr && x.ia()==0) e = Val(); break; }
    case 3: { if (!bTwo) return; hs = "⌜"; BV g = derive1("⌜", f); r = bqn_call2(g, wb, xb); e = table2([&](const Val& a, const Val& b) { return bres(&a, b); }, w, x); cb_dec(g); calls = (arr? x.ia() : 1)*(w.isArr()? w.ia() : 1); if (!calls) e = Val(); break; }
    case 4: { if (!bTwo || !arr || x.rank()!=1 || x.ia()==0) return; hs = "´"; BV g = derive1("´", f); r = bqn_call1(g, xb); Val a = x.it().back(); for (size_t i = x.ia()-1; i-- > 0;) a = bres(&x.it()[i], a); e = a; cb_dec(g); calls = x.ia()-1; break; }
    case 5: { hs = "∘⌽"; if (!arr || !x.rank()) return; BV g = derive2("∘", f, fnOf("⌽")); if (bTwo) { bqn_free(g); g = derive2("○", f, fnOf("⌽")); if (!w.isArr() || !w.rank()) { return; } r = bqn_call2(g, wb, xb); Val rw = p1("⌽", w); e = bres(&rw, p1("⌽", x)); } else { r = bqn_call1(g, xb); e = bres(nullptr, p1("⌽", x)); } bqn_free(g); break; }
    case 6: { hs = bTwo? "˜" : "∘ itself"; BV g = bTwo? derive1("˜", f) : derive2("∘", f, f); if (bTwo) { r = bqn_call1(g, xb); e = bres(&x, x); } else { r = bqn_call1(g, xb); e = bres(nullptr, bres(nullptr, x)); calls = 2; } bqn_free(g); break; }
  }
  string what = mc::strf("a bound function of %s [%s], %s, on %s%s", show(bObj).c_str(), orp.str().c_str(), hs.c_str(), bTwo? (show(w)+" and ").c_str() : "", show(x).c_str()); if (bCalls!=calls) ex.fail("%s\n  is called %d times, expected %d", what.c_str(), bCalls, calls); if (calls) is(ex, what, r, e); is(ex, what+", 𝕩 afterwards", xb, x);
  bqn_free(r); bqn_free(xb); if (bTwo) bqn_free(wb); bqn_free(f); bqn_free(d); if (!early) { is(ex, what+", its object afterwards", o, bObj); if (oc && cb_refc(o)!=oc) ex.fail("%s\n  leaves its object with %d references instead of %d", what.c_str(), cb_refc(o), oc); bqn_free(o); } if (how==6) cb_gc(); bXs.clear(); bWs.clear(); end(ex, what); ex.outcome(hashS(what)); } }
}
// --- namespaces
static void fields(Ex& ex) {
  static const vector<vector<const char*>> N = {{"a"}, {"ab", "a"}, {"zz", "abc", "a1"}, {"b", "abc", "x1", "a"}}; const auto& ns = ex.of(N); static const vector<Val> V = {Val(1), Val::str("value"), Val::vec({Val::vec({Val(1)}), Val(2)}), Val::chr('q')}; int rot = ex.pick(4); begin(true); vector<BV> v; vector<Val> vals; for (size_t i = 0; i < ns.size(); i++) { vals.push_back(V[(i+rot)%4]); v.push_back(toB(vals.back())); }
  vector<const char*> qn(ns.begin(), ns.end()); BV n = cb_ns(ns.size(), qn.data(), v.data());
  for (const char* q : {"a", "b", "ab", "abc", "a1", "x1", "zz", "hidden", "value", "aa", "abcd", "z"}) { Val qv = Val::str(q); bool has = false; Val e; for (size_t i = 0; i < ns.size(); i++) if (!strcmp(ns[i], q)) { has = true; e = vals[i]; }
    for (auto& rp : repsOf(qv, 1)) { BV nm = toB(qv, rp); string what = mc::strf("a namespace of %zu fields, field %s [%s]", ns.size(), q, rp.str().c_str()); bool h = bqn_hasField(n, nm); ex.op(); ex.compared(); if (h!=has) ex.fail("%s\n  bqn_hasField is %s", what.c_str(), h? "true" : "false"); if (has) { BV r = bqn_getField(n, nm); is(ex, what, r, e); bqn_free(r); r = bqn_getField(n, nm); is(ex, what+" (again)", r, e); bqn_free(r); } is(ex, what+", the name afterwards", nm, qv); if (cb_kind(nm)==CK_ARR && !rp.shared && cb_refc(nm)!=1) ex.fail("%s\n  keeps the name", what.c_str()); bqn_free(nm); ex.outcome(hashS(what)); } }
  if (bqn_type(n)!=6) ex.fail("bqn_type of a namespace is %d", bqn_type(n)); BV m = bqn_copy(n); bqn_free(n); BV nm = toB(Val::str(ns[0])); BV r = bqn_getField(m, nm); is(ex, "a field of a copied namespace", r, vals[0]); bqn_free(m); is(ex, "a field after its namespace was freed", r, vals[0]); bqn_free(r); bqn_free(nm); cb_gc(); end(ex, mc::strf("a namespace of %zu fields", ns.size())); 
}
// --- evaluation
static void evals(Ex& ex) { // every program starts afresh; text arrives as it is
  struct P { const char* s; Val e; }; static const vector<P> PS = {{"1+2", Val(3)}, {"a←5", Val(5)}, {"a←1⋄a+a", Val(2)}, {"\"é𝔽🙂\"", Val()}, {"≠\"é𝔽🙂\"", Val(3)}, {"⟨1,2⟩∾3", Val()}, {"F←-⋄F 4", Val(-4)}, {"# c\n7", Val(7)}, {"a←0⋄a↩a+3⋄a", Val(3)}, {"@+97", Val::chr('a')}, {"⟨⟩", Val::vec({})}}; 
  int depth = 3; vector<int> h; for (int i = 0; i < depth; i++) { int k = ex.pick(PS.size()); h.push_back(k); } int how = ex.pick(3);
  for (int k : h) { Val e = PS[k].e; if (!strcmp(PS[k].s, "\"é𝔽🙂\"")) e = Val::vec({Val::chr(0xe9), Val::chr(0x1d53d), Val::chr(0x1f642)}); if (PS[k].s[0]=='\xe2' && strstr(PS[k].s, "∾")) e = Val::vec({Val(1), Val(2), Val(3)}); string what = mc::strf("bqn_eval of %s", PS[k].s); BV r; if (how==0) { what = mc::strf("bqn_evalCStr of %s", PS[k].s); r = bqn_evalCStr(PS[k].s); } else { BV s = bqn_makeUTF8Str(strlen(PS[k].s), PS[k].s); Val sv = fromB(s); if (how==2) { auto rp = repsOf(sv, 2); bqn_free(s); s = toB(sv, rp[(k+h[0])%rp.size()]); } r = bqn_eval(s); is(ex, what+", its text afterwards", s, sv); bqn_free(s); } is(ex, what, r, e); bqn_free(r); ex.outcome(hashS(what)*3+how); }
}
static void texts(Ex& ex) { // bqn_makeUTF8Str on every sequence of code points of a few classes
  static const vector<uint32_t> C = {'a', 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0, '\n'}; vector<Val> v; string s; int n = ex.pick(ex.thorough? 6 : 5); for (int i = 0; i < n; i++) { uint32_t c = ex.of(C); v.push_back(Val::chr(c)); if (c<0x80) s+= (char)c; else if (c<0x800) { s+= (char)(0xc0|c>>6); s+= (char)(0x80|(c&63)); } else if (c<0x10000) { s+= (char)(0xe0|c>>12); s+= (char)(0x80|(c>>6&63)); s+= (char)(0x80|(c&63)); } else { s+= (char)(0xf0|c>>18); s+= (char)(0x80|(c>>12&63)); s+= (char)(0x80|(c>>6&63)); s+= (char)(0x80|(c&63)); } }
  Val e = n? Val::vec(v) : Val::str(""); vector<char> buf(s.begin(), s.end()); buf.push_back('\xe9'); BV b = bqn_makeUTF8Str(s.size(), buf.data()); is(ex, mc::strf("bqn_makeUTF8Str of %zu bytes", s.size()), b, e); bqn_free(b); ex.outcome(hashS(s));
}
// --- histories of handles: a handle keeps its value until it is freed, whatever happens to the others
static void histories(Ex& ex) {
  vector<std::pair<BV, Val>> h; string hist; begin(true); int depth = ex.thorough? 7 : 6; 
  auto add = [&](BV b, const Val& v, const string& what) { hist+= " ⋄ "+what; h.push_back({b, v}); }; 
  for (int step = 0; step < depth; step++) { vector<std::function<void()>> ops; size_t n = h.size();
    if (n<3) { ops.push_back([&]() { int8_t d[] = {1, 2, 3}; Val v = Val::vec({Val(1), Val(2), Val(3)}); add(bqn_makeI8Vec(3, d), v, "makeI8Vec"); }); ops.push_back([&]() { size_t s[] = {2, 2}; uint16_t d[] = {97, 98, 300, 0}; add(bqn_makeC16Arr(2, s, d), Val::arr({2, 2}, {Val::chr(97), Val::chr(98), Val::chr(300), Val::chr(0)}), "makeC16Arr"); }); }
    for (size_t i = 0; i < n; i++) {
      if (n<3) { ops.push_back([&, i]() { add(bqn_copy(h[i].first), h[i].second, mc::strf("copy %zu", i)); }); ops.push_back([&, i]() { BV l[2] = {bqn_copy(h[i].first), bqn_makeF64(5)}; add(bqn_makeObjVec(2, l), Val::vec({h[i].second, Val(5)}), mc::strf("list of %zu", i)); }); if (h[i].second.isArr()) ops.push_back([&, i]() { BV r = bqn_call1(fnOf("⌽"), h[i].first); add(r, p1("⌽", h[i].second), mc::strf("reverse %zu", i)); });
        if (h[i].second.isArr() && h[i].second.ia()) ops.push_back([&, i]() { add(bqn_pick(h[i].first, 0), h[i].second.it()[0], mc::strf("pick 0 of %zu", i)); }); }
      ops.push_back([&, i]() { hist+= mc::strf(" ⋄ free %zu", i); bqn_free(h[i].first); h.erase(h.begin()+i); }); 
      if (h[i].second.isArr() && h[i].second.ia()) ops.push_back([&, i]() { hist+= mc::strf(" ⋄ read %zu, replacing it", i); vector<BQNV> b(h[i].second.ia()); bqn_readObjArr(h[i].first, b.data()); bqn_free(h[i].first); size_t s[8]; for (size_t k = 0; k < h[i].second.rank(); k++) s[k] = h[i].second.a->sh[k]; h[i].first = bqn_makeObjArr(h[i].second.rank(), s, b.data()); });
      if (h[i].second.isArr() && h[i].second.rank()==1 && h[i].second.ia()) ops.push_back([&, i]() { hist+= mc::strf(" ⋄ a list of 1 takes the place of item 0 of %zu", i); BV f = bqn_evalCStr("{⟨1⟩⌾⊑𝕩}"); BV r = bqn_call1(f, h[i].first); bqn_free(f); bqn_free(h[i].first); h[i].first = r; auto it = h[i].second.it(); it[0] = Val::vec({Val(1)}); h[i].second = Val::vec(it); });
    }
    if (n && step<3) ops.push_back([&]() { hist+= " ⋄ collection"; cb_gc(); });
    ops[ex.pick(ops.size())](); ex.op(); for (size_t i = 0; i < h.size(); i++) is(ex, mc::strf("handle %zu after%s", i, hist.c_str()), h[i].first, h[i].second); ex.tick();
  }
  for (auto& p : h) bqn_free(p.first); uint64_t g = cb_heap_used(); if (g!=heap0) { cb_gc(); g = cb_heap_used(); } if (g!=heap0) ex.fail("the heap has %lld bytes more once every handle was freed, after%s", (long long)(g-heap0), hist.c_str()); ex.state(hashS(hist)); ex.outcome(hashS(hist));
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C30"; c.assumptions = {"numbers whose bits are those of a tagged value (NaNs with payloads) are not passed in", "errors inside of bqn_call and bqn_eval leave to an error handler the interface does not define"};
  c.init = []() { cb_init(); bqn_init(); bqn_init(); for (auto f : FN) fnOf(f); for (auto f : {"⌽", "⌽⥊", "≍˜", "⟨0⟩∾⥊", "≡", "¨", "⌜", "´", "∘", "○", "5", "@", "⟨⟩", "+", "{𝕩}", "1⊸+", "+´", "+∘-", "˙"}) fnOf(f); values(); for (auto& q : vector<vector<const char*>>{{"a"}, {"ab", "a"}, {"zz", "abc", "a1"}, {"b", "abc", "x1", "a"}}) { vector<BV> v; vector<const char*> n = q; for (auto x : n) v.push_back(toB(Val(1))); cb_dec(cb_ns(n.size(), n.data(), v.data())); } cb_gc(); };
  c.perRun = gcEvery(64);
  c.sc = {{"histories", 4, histories, 3, "all sequences of 6 (7) operations on up to 3 handles"},
          {"makes", 3, makes, 3, "8 kinds of arrays × 18 shapes × 3 contents, as arrays and vectors"},
          {"reads", 3, reads, 3, "8 kinds of buffers × values of 7 widths × 18 shapes × 3 contents, all representations"},
          {"looks", 1, looks, 3, "290 values in all representations"},
          {"atoms", 0, atoms, 3, "12 numbers, 9 characters, 11 values of every type"},
          {"calls", 2, calls, 3, "18 callables × 290 values × (5 left arguments or none), all representations"},
          {"bounds", 3, bounds, 3, "6 objects × 1 or 2 arguments × 7 ways to be called × 5×5 arguments, collecting and evaluating inside or not"},
          {"fields", 2, fields, 3, "4 namespaces × 4 assignments of values × 12 names, all representations"},
          {"evals", 2, evals, 3, "all sequences of 3 of 11 programs, 3 ways to pass them"},
          {"texts", 2, texts, 3, "all texts of up to 4 (5) characters of 12 classes"}};
  return mainMC(argc, argv, c);
}
