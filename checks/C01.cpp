// Dyadic arithmetic: every pair of an alphabet of scalars, in every form and representation, against the scalar definitions.
#include "dyad.hpp"
using namespace bq;
static const vector<string> OPS = {"+","-","×","÷","⋆","√","⌊","⌈","|","∧","∨","¬"};
static const vector<string> MOPS = {"atan2","hypot","comb","gcd","lcm"};
static BV find(const string& g) { for (auto& m : MOPS) if (m==g) return fnOf("•math."+ (g=="atan2"? string("Atan2") : g=="hypot"? "Hypot" : g=="comb"? "Comb" : g=="gcd"? "GCD" : "LCM")); return g=="log"? fnOf("⋆⁼") : fnOf(g); }
// sequences of values that walk through a type in one array, so that the overflow falls on any position
static void positions(Ex& ex) {
  const string& g = ex.of(ALL); int n = ex.of(vector<int>{2, 5, 64, 67}); int at = ex.pick(5); const Val& a = ex.of(AB); int form = ex.pick(3);
  if (!a.isNum()) return;
  size_t p = at==0? 0 : at==1? 1 : at==2? n/2 : at==3? n-2 : n-1;
  vector<Val> it; for (int i = 0; i < n; i++) it.push_back(Val(i%7-2)); it[p] = a; Val l = Val::vec(it);
  vector<Val> ot; for (int i = 0; i < n; i++) ot.push_back(Val(i%5+1)); Val m = Val::vec(ot);
  Val w = form==0? l : form==1? m : l, x = form==0? m : form==1? l : Val(3);
  star2(ex, g, fOf(g), w, x, out2(g, w, x), 1);
}
// few items of one side against large cells of the other: around the size from which cells are handled one by one
static void largeCells(Ex& ex) {
  const string& g = ex.of(ALL); int f1 = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_MIX, FAM_C8, FAM_C32}), f2 = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_F64, FAM_NEST}), rev = ex.pick(2); size_t k = ex.of(vector<size_t>{79, 80, 81, 160, 320, 640, 641, 5119, 5120}); size_t n = ex.of(vector<size_t>{1, 2, 4, 7}); if (k>700 && f1!=FAM_BIT) return; if (!ex.thorough && (k+n+f1+f2)%3) return;
  Val b = famArr(f1, k%2? Sh{n, k} : Sh{n, 2, k/2}, 100, 7), s = famArr(f2, {n}, 50, 3); Val w = rev? b : s, x = rev? s : b; Outcome o = out2(g, w, x); call2(ex, g, fOf(g), w, {}, x, {}, o); ex.tick(); if (k<700) { call2(ex, g, fOf(g), w, {.shared=true}, x, {.shared=true}, o); ex.tick(); }
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C01"; fOf = find;
  c.assumptions = {"the floating-point results of pow, exp and log are those of this system's libm", "⌊ and ⌈ of a NaN are unspecified"};
  c.init = []() {
    cb_init(); for (double d : NUMS) AB.push_back(Val(d)); for (uint32_t q : CHRS) AB.push_back(Val::chr(q));
    ALL = OPS; ALL.push_back("log"); for (auto& m : MOPS) ALL.push_back(m); for (auto& g : ALL) fOf(g);
  };
  c.perRun = gcEvery(3000); c.after = sharedIntact;
  c.sc = {{"scalar-pairs", 2, pairs, 3, "18 functions × 75² pairs × 4 forms × lengths 1,3,10 × all element types"},
          {"positions", 2, positions, 3, "18 functions × 66 numbers at 5 positions of lists of 2–67 × 3 forms"},
          {"shapes", 3, shapes, 3, "18 functions × 15² shapes × 8² item kinds, ranks 0–4"},
          {"lengths", 3, lengths, 3, "18 functions × 7² families × lengths at the word boundaries × 3 forms"},
          {"large-cells", 3, largeCells, 3, "18 functions × 32 family pairs × 9 cell sizes up to 5120 × 1–7 cells, both ways round"}};
  return mainMC(argc, argv, c);
}
