// Numbers and text: •Repr gives the shortest digits that are read back as the number, the nearest of those; •ParseFloat gives the double nearest to the text, or an error. Exact decimal expansions (glibc) are the oracle.
#include "gen.hpp"
using namespace bq;
static BV REPR, PARSE;
static double dbl(uint64_t b) { double d; memcpy(&d, &b, 8); return d; } static uint64_t bitsOf(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static string textOf(BV r) { size_t n = cb_ia(r); string s; BV v = r; Val q = fromB(v); for (size_t i = 0; i < n; i++) { uint32_t c = q.it()[i].c; s+= c==0xaf? string("-") : c<0x80? string(1, (char)c) : c==0x221e? string("I") : string("?"); } return s; }
// the shortest decimal that rounds to d (> 0), as digits and exponent of the first one
static void shortest(double d, string& dig, int& e10) {
  char b[1200]; snprintf(b, sizeof b, "%.780e", d); string all(1, b[0]); char* p = b+2; while (*p!='e') all+= *p++; int e = atoi(p+1); char t[64];
  auto back = [&](const string& s, int ex) { snprintf(t, sizeof t, "%s.%se%d", s.substr(0, 1).c_str(), s.substr(1).c_str(), ex); return strtod(t, nullptr)==d; };
  for (int n = 1; ; n++) { string lo = all.substr(0, n), hi = lo; int he = e; int i = n-1; while (i>=0 && hi[i]=='9') hi[i--] = '0'; if (i>=0) hi[i]++; else { hi = "1"+hi.substr(0, n-1); he++; }
    bool l = back(lo, e), h = back(hi, he); if (!l && !h) continue; bool up; if (l && h) { char c = all[n]; bool rest = all.find_first_not_of('0', n+1)!=string::npos; up = c>'5' || (c=='5' && (rest || ((lo[n-1]-'0')&1))); } else up = h;
    dig = up? hi : lo; e10 = up? he : e; while (dig.size()>1 && dig.back()=='0') dig.pop_back(); return; }
}
static string expected(double d) {
  if (d!=d) return "NaN"; if (d==0) return "0"; string s = d<0? "-" : ""; d = fabs(d); if (std::isinf(d)) return s+"I"; string g; int e; shortest(d, g, e); int n = g.size();
  if (e>-5 && e<15) { if (e<0) return s+"0."+string(-e-1, '0')+g; if (n<=e+1) return s+g+string(e+1-n, '0'); return s+g.substr(0, e+1)+"."+g.substr(e+1); }
  string r = s+g.substr(0, 1); if (n>1) r+= "."+g.substr(1); return r+"e"+std::to_string(e);
}
static BV strB(const string& s) { size_t n = s.size(); return cb_mkarr(CE_C8, n, 1, &n, s.data()); }
static bool parse(BV x, double& d) { BV r; if (cb_c1(PARSE, x, &r)) return false; Val v = fromB(r); if (!v.isNum()) { d = NAN; return true; } d = v.n; cb_dec(r); return true; }
static void isNum(Ex& ex, const string& text, double want) { double d; ex.op(); ex.compared(); if (!parse(strB(text), d)) ex.fail("•ParseFloat \"%s\" is an error: %s", text.substr(0, 300).c_str(), cb_err()); if (bitsOf(d)!=bitsOf(want)) ex.fail("•ParseFloat \"%s\"\n  gives    %.17g (%016llx)\n  expected %.17g (%016llx)", text.substr(0, 300).c_str(), d, (unsigned long long)bitsOf(d), want, (unsigned long long)bitsOf(want)); }
static void check(Ex& ex, double d) { // printed as the shortest; that read again is the same
  BV r; ex.op(); ex.compared(); if (cb_c1(REPR, cb_mknum(d), &r)) ex.fail("•Repr %.17g is an error", d); string why; if (!wellFormed(r, &why)) ex.fail("•Repr %.17g is malformed: %s", d, why.c_str()); string got = textOf(r), want = expected(d); cb_dec(r); if (got!=want) ex.fail("•Repr of %.17g (%016llx)\n  gives    %s\n  expected %s   (- for ¯)", d, (unsigned long long)bitsOf(d), got.c_str(), want.c_str()); if (std::isfinite(d) && d!=0) isNum(ex, got, d); }
static const vector<uint64_t>& mants(bool th) { static vector<uint64_t> M; if (M.empty()) { uint64_t top = 1ull<<52, m = top-1; std::set<uint64_t> s = {0, 1, 2, 3, 5, m, m-1, m-2, top/2, top/2-1, top/2+1, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x3333333333333, 0x999999999999a, 0x123456789abcd}; for (int i = 0; i < 52; i++) { s.insert(1ull<<i); s.insert(m^(1ull<<i)); s.insert((1ull<<i)-1); s.insert(m-((1ull<<i)-1)); } if (th) for (int i = 0; i < 52; i++) for (int j = 0; j < i; j++) { s.insert(1ull<<i|1ull<<j); s.insert((1ull<<i)-(1ull<<j)); } M.assign(s.begin(), s.end()); } return M; }
// --- every exponent with every mantissa of the patterns, both signs
static void printing(Ex& ex) { int e = ex.pick(2048); auto& M = mants(ex.thorough); for (size_t i = 0; i < M.size(); i++) { if (e==2047 && M[i] && i%16) continue; check(ex, dbl((uint64_t)e<<52|M[i])); check(ex, dbl(1ull<<63|(uint64_t)e<<52|M[i])); } ex.tick(); ex.outcome(e); }
// --- multiples of powers of five, and the numbers whose edges are such: where digits end exactly
static void fives(Ex& ex) {
  int j = 1+ex.pick(23), which = ex.pick(3); typedef unsigned __int128 U; uint64_t f = 1; for (int i = 0; i < j && f <= (1ull<<54)/5; i++) f*= 5; const uint64_t lo = 1ull<<52, hi = 2*lo; std::set<uint64_t> S; size_t n = ex.thorough? 200 : 24;
  auto put = [&](uint64_t k) { U v = (U)k*f; if (which) { if (!(k&1)) return; v = which==1? (v-1)/2 : (v+1)/2; } else { while (v && v < lo) v*= 2; } if (v>=lo && v<hi) S.insert((uint64_t)v); };
  uint64_t base = which? 2*lo/f : lo/f; for (uint64_t d = 0; d < 2*n; d++) { put(base+d); put(base+d*(base/(2*n)+1)); if (2*base>d) put(2*base-d); put(d); }
  for (uint64_t m : S) for (int e = 1023-(ex.thorough? 400 : 60); e < 1023+(ex.thorough? 400 : 160); e++) check(ex, dbl((uint64_t)e<<52|(m-lo))); ex.outcome(j*3+which); ex.tick();
}
// --- what one types: integers, fractions and decimals
static void everyday(Ex& ex) {
  int k = ex.pick(256); for (int i = 0; i < (ex.thorough? 40960 : 2048); i++) { double v = (double)k*2048+i; check(ex, v); if (i%8==0) { check(ex, -v); check(ex, v/8); check(ex, v/10); check(ex, v/1000); check(ex, v/7); check(ex, sqrt(v)); } }
  for (int e = -22; e <= 22; e++) for (int m = k; m < 1000; m+= 256) { double p = strtod(strf("%de%d", m, e).c_str(), nullptr); check(ex, p); check(ex, nextafter(p, INFINITY)); check(ex, nextafter(p, -INFINITY)); } 
  for (int b = 0; b < 64; b++) for (int d = -2; d <= 2; d++) check(ex, ldexp(1+k, b)+d); ex.tick(); ex.outcome(k);
}
// --- reading: every number of up to 4 (5) digits with every exponent
static void decimals(Ex& ex) { int e = ex.pick(760)-400, L = ex.thorough? 100000 : 3000; for (int m = 0; m < L; m++) { string s = strf("%de%d", m, e); double w = strtod(s.c_str(), nullptr); isNum(ex, s, w); if (m%16==1) { isNum(ex, strf("-%d.E%+d", m, e), -w); isNum(ex, strf(".%03de%d", m%1000, e), strtod(strf(".%03de%d", m%1000, e).c_str(), nullptr)); isNum(ex, strf("%d.%de%05d", m/10, m%10, e), strtod(strf("%d.%de%d", m/10, m%10, e).c_str(), nullptr)); isNum(ex, strf("000%d.000e+0%d", m, abs(e)), strtod(strf("%de%d", m, abs(e)).c_str(), nullptr)); } } ex.tick(); ex.outcome(e); }
// --- 15 to 17 digits next to where the nearest double changes
static void halfways(Ex& ex) {
  int e = ex.pick(2047); auto& M = mants(ex.thorough); static thread_local char b[1300]; for (auto m : M) { double d = dbl((uint64_t)e<<52|m), up = nextafter(d, INFINITY); if (std::isinf(up)) continue; long double h = ((long double)d+(long double)up)/2; snprintf(b, sizeof b, "%.60Le", h); string all(1, b[0]); for (char* p = b+2; *p!='e'; p++) all+= *p; int ex10 = atoi(strchr(b, 'e')+1);
    for (int n = 15; n <= 17; n++) { string lo = all.substr(0, n), hi = lo; int i = n-1, he = ex10; while (i>=0 && hi[i]=='9') hi[i--] = '0'; if (i>=0) hi[i]++; else { hi = "1"+hi.substr(0, n-1); he++; } for (int q = 0; q < 2; q++) { const string& s = q? hi : lo; int x = q? he : ex10; string t = s.substr(0, 1)+"."+s.substr(1)+strf("e%d", x); double w = strtod(t.c_str(), nullptr); isNum(ex, t, w); if (n==17) { isNum(ex, "-"+s+strf("e%d", x-16), -w); if (x>-40 && x<40) { string z = x<0? "0."+string(-x-1, '0')+s : x>=16? s+string(x-16, '0') : s.substr(0, x+1)+"."+s.substr(x+1); isNum(ex, z, w); isNum(ex, "00"+z+(x<16? "000" : ".0"), w); } } } }
    // more than 17 digits: one of the two doubles around
    { string t = string(b); double g; ex.op(); ex.compared(); if (!parse(strB(t), g)) ex.fail("•ParseFloat \"%s\" is an error", t.c_str()); if (g!=d && g!=up) ex.fail("•ParseFloat \"%s\"\n  gives    %.17g\n  expected %.17g or %.17g", t.c_str(), g, d, up); } }
  ex.tick(); ex.outcome(e);
}
// --- long texts: zeros around, exponents that make up for them
static void longTexts(Ex& ex) {
  static const vector<const char*> D = {"1", "9", "25", "17976931348623157", "17976931348623158", "17976931348623159", "22250738585072014", "49406564584124654", "24703282292062327", "24703282292062328", "5", "99999999999999999", "10000000000000001", "9007199254740993", "123456789"}; static const vector<int> Z = {0, 1, 2, 15, 16, 17, 18, 19, 20, 100, 307, 308, 309, 323, 324, 325, 400, 1100, 5000}; string d = ex.of(D); int z = ex.of(Z), w = ex.pick(4);
  for (int e = -5010; e <= 5010; e+= (abs(e+z)<360 || abs(e-z)<360 || abs(e)<360)? 1 : 101) { string s = w==0? string(z, '0')+d : w==1? d+string(z, '0') : w==2? "0."+string(z, '0')+d : d+"."+string(z, '0'); s+= strf("e%d", e); string ref; isNum(ex, s, strtod(s.c_str(), nullptr)); } for (auto q : {"e99999999999999999999", "e-99999999999999999999", "E+2147483648", "e-2147483648", "e4294967296", "e-4294967297", "e18446744073709551616"}) { string s = d+string(z, '0')+q; isNum(ex, s, q[1]=='-'? 0.0 : INFINITY); isNum(ex, "-0.00"+string(q), -0.0); } ex.tick(); ex.outcome(hashS(d)+z*4+w);
}
// --- every text of up to 6 (7) of 11 characters is a number or an error
static bool grammar(const string& s) { size_t i = 0, n = s.size(); if (i<n && s[i]=='-') i++; size_t dg = 0; while (i<n && isdigit((unsigned char)s[i])) i++, dg++; if (i<n && s[i]=='.') { i++; while (i<n && isdigit((unsigned char)s[i])) i++, dg++; } if (!dg) return false; if (i<n && (s[i]=='e' || s[i]=='E')) { i++; if (i<n && (s[i]=='-' || s[i]=='+')) i++; size_t k = i; while (i<n && isdigit((unsigned char)s[i])) i++; if (i==k) return false; } return i==n; }
static void texts(Ex& ex) {
  static const char A[] = {'0', '1', '7', '.', '-', '+', 'e', 'E', ' ', '\xaf', 'i'}; string s; for (int k = 0; k < 3; k++) { int c = ex.pick(12); if (c==11) break; s+= A[c]; } int max = ex.thorough? 7 : 6;
  std::function<void(int)> rec = [&](int left) { double d; ex.op(); ex.compared(); bool ok = parse(strB(s), d), g = grammar(s); if (ok!=g) ex.fail("•ParseFloat \"%s\" %s", s.c_str(), ok? strf("gives %.17g, expected an error", d).c_str() : strf("is an error: %s", cb_err()).c_str()); if (ok) { double w = strtod(s.c_str(), nullptr); if (bitsOf(w)!=bitsOf(d)) ex.fail("•ParseFloat \"%s\"\n  gives    %.17g\n  expected %.17g", s.c_str(), d, w); } if (!left) return; for (char c : A) { s+= c; rec(left-1); s.pop_back(); } };
  rec(s.size()==3? max-3 : 0); ex.tick(); ex.outcome(hashS(s));
}
// --- the same text in every form; what is no text
static void forms(Ex& ex) {
  static const vector<string> T = {"1.5", "-2e10", "123", "0", "1e-400", "12345678901234567", "1x", "", "e", "-"}; string s = ex.of(T); Val v = Val::str(s.c_str()); bool ok = grammar(s); double w = ok? strtod(s.c_str(), nullptr) : 0; for (auto& rp : repsOf(v, 2)) { double d; ex.op(); ex.compared(); BV b = toB(v, rp), k = cb_inc(b); bool g = parse(b, d); if (g!=ok || (ok && bitsOf(d)!=bitsOf(w))) ex.fail("•ParseFloat \"%s\" stored as %s: %s", s.c_str(), rp.str().c_str(), g? strf("%.17g", d).c_str() : cb_err()); if (!same(k, v)) ex.fail("•ParseFloat changes its argument \"%s\"", s.c_str()); cb_dec(k); }
  static const vector<Val> BADV = {Val(1), Val::chr('1'), numsV({1, 2}), Val::arr({1, 1}, {Val::chr('1')}), Val::arr({}, {Val::chr('1')}), Val::vec({Val::chr('1'), Val(2)}), Val::vec({Val::str("1")}), Val::vec({Val::chr(0x661)}), Val::vec({Val::chr('1'), Val::chr(0x131)}), Val::vec({Val::chr('1'), Val::chr(0x10031)}), Val::arr({0, 1}, {})}; for (auto& x : BADV) for (auto& rp : repsOf(x, 1)) { double d; ex.op(); ex.compared(); if (parse(toB(x, rp), d)) ex.fail("•ParseFloat %s is no error", show(x).c_str()); } ex.outcome(hashS(s));
}
int main(int argc, char** argv) {
  static bool th; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough") || !strcmp(argv[i], "--thorough")) th = true;
  mc::Config c; c.property = "C24"; c.assumptions = {"glibc's printf and strtod are exact", "text of more than 17 significant digits need only give one of the two numbers around it (documented)"};
  c.init = []() { cb_init(); REPR = fnOf("•Repr"); PARSE = fnOf("•ParseFloat"); mants(th); };
  c.perRun = gcEvery(64);
  c.sc = {{"printing", 1, printing, 3, "all 2048 exponents × 220 (1800) mantissas × both signs: printed, and read again"}, {"fives", 2, fives, 3, "mantissas that are multiples of each power of five, or half a step from one, × 220 (800) exponents"}, {"everyday", 1, everyday, 3, "integers to 2⋆19 and around powers of two, fractions, decimals of 3 digits and their neighbours"}, {"decimals", 1, decimals, 3, "all numbers to 3000 (100000) × exponents ¯400 to 359, and other spellings"}, {"halfways", 1, halfways, 3, "15, 16 and 17 digits on each side of the middle between neighbours, for all exponents × mantissas"}, {"long", 2, longTexts, 3, "15 digit strings with up to 5000 zeros on either side × exponents"}, {"texts", 3, texts, 3, "every text of up to 6 (7) of 11 characters"}, {"forms", 1, forms, 3, "10 texts in every storage form, 11 values that are none"}};
  return mainMC(argc, argv, c);
}
