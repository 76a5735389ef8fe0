// The three sweeps of a pervasive dyadic function: scalar pairs, shapes, lengths.
#pragma once
#include "gen.hpp"
namespace bq {
static const vector<double> NUMS = {0, 1, 2, 3, 5, 7, 8, 16, 64, 100, 126, 127, 128, 129, 255, 256, 257, 1000, 32766, 32767, 32768, 32769, 65535, 65536, 46341, 1073741824, 2147483646, 2147483647, 2147483648.0, 2147483649.0, 4294967295.0, 4294967296.0, 9007199254740991.0, 9007199254740992.0,
  -1, -2, -3, -7, -127, -128, -129, -255, -256, -1000, -32767, -32768, -32769, -65536, -46341, -2147483647, -2147483648.0, -2147483649.0, -4294967296.0, -9007199254740992.0, 0.5, -0.5, 1.5, -2.5, 0.1, 1e-300, 1e300, -1e300, 4.9e-324, INFINITY, -INFINITY, NAN};
static const vector<uint32_t> CHRS = {0, 'a', 'b', 255, 256, 257, 0xFFFF, 0x10000, 0x10FFFF};
static vector<Val> AB;
static vector<string> ALL;
static BV (*fOf)(const string&);
static F2 ref(const string& g) { return [g](const Val& a, const Val& b) { return perv2([&](const Val& p, const Val& q) { return s2(g, p, q); }, a, b); }; }
static Outcome out2(const string& g, const Val& w, const Val& x) { return outcomeOf([&]() { return ref(g)(w, x); }); }
static void pairs(Ex& ex) {
  const string& g = ex.of(ALL); const Val& a = ex.of(AB); const Val& b = ex.of(AB); int form = ex.pick(4);
  BV f = fOf(g);
  // form 0: atoms; 1: atom with list; 2: list with atom; 3: two lists. The pair is the last of n items, the others are in the same types
  if (form==0) { Outcome o = out2(g, a, b); star2(ex, g, f, a, b, o, 0); return; }
  for (int n : {1, 3, 10}) {
    auto lst = [&](const Val& v, int other) { vector<Val> it(n, v.isNum()? Val(other) : Val::chr('b')); it[n-1] = v; return Val::vec(it); };
    Val w = form==1? a : lst(a, 1), x = form==2? b : lst(b, 1);
    star2(ex, g, f, w, x, out2(g, w, x), n==3? 1 : 0);
    if (n==10) { // the deciding pair first
      auto fst = [&](const Val& v) { vector<Val> it(n, v.isNum()? Val(0) : Val::chr('b')); it[0] = v; return Val::vec(it); };
      w = form==1? a : fst(a); x = form==2? b : fst(b);
      star2(ex, g, f, w, x, out2(g, w, x), 0);
    }
  }
}
static const vector<Sh> SHAPES = {{}, {0}, {1}, {2}, {3}, {0,2}, {2,0}, {1,1}, {2,3}, {3,2}, {2,1}, {2,3,2}, {2,0,3}, {1,1,1,1}, {2,3,2,2}};
static Val shapedOf(int kind, const Sh& s, int seed) {
  switch (kind) {
    case 0: return famArr(FAM_BIT, s, 2, seed);
    case 1: return famArr(FAM_I8, s, 9, seed);
    case 2: return famArr(FAM_I32, s, 1000, seed);
    case 3: return famArr(FAM_F64, s, 9, seed);
    case 4: { vector<Val> it; for (size_t i = 0; i < prod(s); i++) it.push_back(i%2? Val((double)i+seed) : Val::vec({Val((double)i), Val(7.0+seed)})); return Val::arr(s, it); }
    case 5: { vector<Val> it; for (size_t i = 0; i < prod(s); i++) it.push_back(i%3==1? unitOf(Val(4.0)) : Val::arr({2,1}, {Val((double)i), Val::vec({Val(1), Val(2.5)})})); return Val::arr(s, it); }
    default: return famArr(FAM_C16, s, 5, seed);
  }
}
static void shapes(Ex& ex) { // every pair of shapes and item kinds: prefix agreement, nesting, errors
  const string& g = ex.of(ALL); const Sh& s = ex.of(SHAPES); int kw = ex.pick(8); const Sh& t = ex.of(SHAPES); int kx = ex.pick(8);
  if (kw==7 && s.size()) return; if (kx==7 && t.size()) return; // 7: an atom
  Val w = kw==7? Val(3) : shapedOf(kw, s, 1), x = kx==7? Val(5) : shapedOf(kx, t, 2);
  star2(ex, g, fOf(g), w, x, out2(g, w, x), s.size()==t.size() || s.size()<2? 1 : 0);
}
static vector<size_t> lens(bool th) { vector<size_t> r = {1,2,7,8,9,31,32,33,63,64,65,127,128,129,200}; if (th) for (size_t n : {3,4,5,6,10,15,16,17,24,48,62,66,100,191,192,193,255,256,257,511,512,513,1023,1025}) r.push_back(n); return r; }
static void lengths(Ex& ex) { // every length around the word sizes, every pair of element families
  const string& g = ex.of(ALL); size_t n = ex.of(lens(ex.thorough)); int fw = ex.pick(FAM_C16+1), fx = ex.pick(FAM_C16+1); int form = ex.pick(3);
  Val w = form==1? famItem(fw, 3, 100) : famArr(fw, {n}, 200, 3), x = form==2? famItem(fx, 5, 100) : famArr(fx, {n}, 200, 4);
  star2(ex, g, fOf(g), w, x, out2(g, w, x), n<70? 1 : 0);
}
}
