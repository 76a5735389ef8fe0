// Monadic arithmetic: every value of an alphabet at the first, middle and last position, in every representation.
#include "gen.hpp"
using namespace bq;
static const vector<string> OPS = {"+","-","×","÷","⋆","√","⌊","⌈","|","¬"};
static const vector<std::pair<string,string>> MOPS = {{"sin","Sin"},{"cos","Cos"},{"tan","Tan"},{"asin","ASin"},{"acos","ACos"},{"atan","ATan"},{"sinh","SinH"},{"cosh","CosH"},{"tanh","TanH"},{"asinh","ASinH"},{"acosh","ACosH"},{"atanh","ATanH"},{"cbrt","Cbrt"},{"log2","Log2"},{"log10","Log10"},{"log1p","Log1p"},{"expm1","ExpM1"},{"erf","Erf"},{"erfc","ErfC"},{"fact","Fact"},{"logfact","LogFact"}};
static vector<std::pair<string,BV>> FS;
static vector<Val> AB;
static F1 ref(const string& g) { return [g](const Val& x) { return perv1([&](const Val& v) { return s1(g, v); }, x); }; }
static Outcome out1(const string& g, const Val& x) { return outcomeOf([&]() { return ref(g)(x); }); }
static void values(Ex& ex) {
  auto& p = ex.of(FS); const Val& a = ex.of(AB); int n = ex.of(vector<int>{0, 1, 2, 5, 9, 64, 65, 130});
  const string& g = p.first; BV f = p.second;
  if (n==0) { call1(ex, g, f, a, {}, out1(g, a)); return; }
  int pos = ex.pick(3); size_t at = pos==0? 0 : pos==1? n/2 : n-1;
  int filler = ex.pick(3);
  vector<Val> it; for (int i = 0; i < n; i++) it.push_back(filler==0? Val(i&1) : filler==1? (a.isNum()? (a.n!=a.n? Val(0) : a.n>1e6 || a.n<-1e6? Val(-3-i%50) : Val(i%2? -a.n/1 : a.n)) : Val::chr('b')) : Val(i%100-50));
  it[at] = a; Val x = Val::vec(it);
  all1(ex, g, f, x, out1(g, x), n<10? 2 : 1);
}
static const vector<Sh> SHAPES = {{}, {0}, {1}, {3}, {0,2}, {2,0}, {1,1}, {2,3}, {2,3,2}, {2,0,3}, {1,1,1,1}, {64}, {8,8}, {13,5}};
static void shapes(Ex& ex) {
  auto& p = ex.of(FS); const Sh& s = ex.of(SHAPES); int fam = ex.pick(FAM_N+2); int range = ex.of(vector<int>{3, 300});
  Val x = fam<FAM_N? famArr(fam, s, range, 5) : fam==FAM_N?
    [&]() { vector<Val> it; for (size_t i = 0; i < prod(s); i++) it.push_back(i%3==0? famArr(FAM_I8, {2}, 200, i) : i%3==1? Val((double)i-2) : unitOf(famArr(FAM_F64, {1,2}, 20, i))); return Val::arr(s, it); }() :
    [&]() { vector<Val> it; for (size_t i = 0; i < prod(s); i++) it.push_back(i%2? Val::vec({famArr(FAM_I16, {2,2}, 200, i), Val(3)}) : famArr(FAM_BIT, {3}, 2, i)); return Val::arr(s, it); }();
  all1(ex, p.first, p.second, x, out1(p.first, x), 2);
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C02"; c.assumptions = {"the floating-point results of exp, log and the •math functions are those of this system's libm", "× of a NaN is unspecified"};
  c.init = []() {
    cb_init(); for (auto& g : OPS) FS.push_back({g, fnOf(g)}); FS.push_back({"log", fnOf("⋆⁼")}); for (auto& m : MOPS) FS.push_back({m.first, fnOf("•math."+m.second)});
    for (double d : {0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 100.0, -100.0, 126.0, 127.0, 128.0, 129.0, -126.0, -127.0, -128.0, -129.0, 32766.0, 32767.0, 32768.0, -32767.0, -32768.0, -32769.0, 65535.0, 65536.0, 2147483646.0, 2147483647.0, 2147483648.0, -2147483646.0, -2147483647.0, -2147483648.0, -2147483649.0, 4294967296.0, 9007199254740991.0, 9007199254740992.0, -9007199254740992.0, 4503599627370497.5, 1e-300, -1e-300, 1e300, -1e300, 4.9e-324, 0.1, -0.1, 3.7, -3.7, 709.0, 710.0, 170.0, 171.0, 2147483647.5, -2147483648.5}) AB.push_back(Val(d));
    AB.push_back(Val((double)INFINITY)); AB.push_back(Val(-(double)INFINITY)); AB.push_back(Val((double)NAN)); AB.push_back(Val::chr('a')); AB.push_back(Val::chr(0x10FFFF));
  };
  c.perRun = gcEvery(3000); c.after = sharedIntact;
  c.sc = {{"values", 2, values, 3, "32 functions × 62 values × lengths 0–130 × 3 positions × 3 surroundings × all representations"},
          {"shapes", 2, shapes, 3, "32 functions × 14 shapes × 12 kinds of items × all representations"}};
  return mainMC(argc, argv, c);
}
