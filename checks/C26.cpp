// •MakeRand and •rand: every outcome of every draw. The implementation's random numbers come from here: all of them for small sizes, extreme and patterned ones for large.
#include "gen.hpp"
using namespace bq;
enum { REAL, PICK, RAW, PAT }; static int mode = REAL;
static vector<uint64_t> ks, ch; static size_t at; static bool overrun; // PICK: an odometer over the draws
static vector<uint64_t> raws; static size_t rawAt; static int patK; static uint64_t patN; static int devAt = -1, devV;
extern "C" uint64_t verif_rand(uint64_t* seed, uint64_t (*real)(uint64_t*)) {
  if (mode==REAL) return real(seed); if (mode==PICK) return 0; if (mode==RAW) { *seed+= 1; return raws[rawAt++%raws.size()]; }
  uint64_t i = patN++; switch (patK) { case 0: return 0; case 1: return ~0ull; case 2: return i&1? ~0ull : 0; case 3: return 0x0001020304050607ull*(i%29); case 4: return i*0x0101010101010101ull; case 5: return 0x8000000000000000ull; default: return real(seed); } }
extern "C" uint64_t verif_below(uint64_t r, uint64_t k, uint64_t (*real)(uint64_t, uint64_t)) {
  if (mode==PICK) { if (at==ch.size()) { if (ch.size()>400) { overrun = true; return 0; } ch.push_back(0); ks.push_back(k); } if (ks[at]!=k) { overrun = true; } return ch[at++]; }
  uint64_t v = real(r, k); if (mode==PAT && devAt>=0 && (uint64_t)devAt==patN-1) return devV==0? 0 : devV==1? k-1 : k/2; return v; }
static bool next() { for (size_t i = at; i-- > 0;) { if (ch[i]+1<ks[i]) { ch[i]++; ch.resize(i+1); ks.resize(i+1); return true; } } return false; }
static BV gen(double seed) { BV r; if (cb_c1(fnOf("•MakeRand"), cb_mknum(seed), &r)) { fprintf(stderr, "•MakeRand: %s\n", cb_err()); _exit(4); } return r; }
static BV op(BV g, const char* n) { BV r; if (cb_field(g, n, &r)) { fprintf(stderr, "no field %s\n", n); _exit(4); } return r; }
struct Gen { BV g, range, deal, subset; Gen(double s) { g = gen(s); get(); } Gen(BV b, int) { g = b; get(); } void get() { range = op(g, "range"); deal = op(g, "deal"); subset = op(g, "subset"); } ~Gen() { mode = REAL; cb_dec(range); cb_dec(deal); cb_dec(subset); cb_dec(g); } };
static BV run(Ex& ex, const string& what, BV f, const Val* w, const Val& x) { BV r; ex.op(); int rc = w? cb_c2(f, toB(*w), toB(x), &r) : cb_c1(f, toB(x), &r); if (rc) { mode = REAL; ex.fail("%s: %s", what.c_str(), cb_err()); } return r; }
static void form(Ex& ex, const string& what, BV r) { string why; if (!wellFormed(r, &why)) { mode = REAL; ex.fail("%s\n  gives a malformed value: %s", what.c_str(), why.c_str()); } }
static vector<int64_t> ints(Ex& ex, const string& what, BV r) { Val v = fromB(r); vector<int64_t> o; if (!v.isArr() || v.rank()!=1) { mode = REAL; ex.fail("%s\n  gives %s", what.c_str(), show(v).c_str()); } for (auto& e : v.it()) { if (!e.isNum() || e.n!=floor(e.n)) { mode = REAL; ex.fail("%s\n  gives %s", what.c_str(), show(v).c_str()); } o.push_back(e.n); } return o; }
static string showI(const vector<int64_t>& v) { string s; for (size_t i = 0; i < v.size() && i < 40; i++) s+= mc::strf("%s%lld", i? "‿" : "", (long long)v[i]); return s; }
static double choose(int n, int k) { double r = 1; for (int i = 0; i < k; i++) r = r*(n-i)/(i+1); return floor(r+0.5); }
static double falling(int n, int k) { double r = 1; for (int i = 0; i < k; i++) r*= n-i; return r; }
static void bad(Ex& ex, const string& what, const vector<int64_t>& v, const char* why) { mode = REAL; ex.fail("%s\n  gives %s, %s", what.c_str(), showI(v).c_str(), why); }
static void checkPart(Ex& ex, const string& what, const vector<int64_t>& v, size_t k, int64_t n, bool sorted) { ex.compared(); if (v.size()!=k) bad(ex, what, v, "which has another length"); vector<bool> seen(n); for (size_t i = 0; i < v.size(); i++) { if (v[i]<0 || v[i]>=n) bad(ex, what, v, "which is out of range"); if (seen[v[i]]) bad(ex, what, v, "which has a repeated element"); seen[v[i]] = true; if (sorted && i && v[i]<=v[i-1]) bad(ex, what, v, "which is not sorted"); } }
// every sequence of draws: each result occurs, and equally often
static void outcomes(Ex& ex) {
  static const vector<std::array<int, 3>> Q = []() { vector<std::array<int, 3>> q; for (int n = 0; n <= 7; n++) { q.push_back({0, n, n}); for (int k = 0; k <= n; k++) q.push_back({1, k, n}); } for (int n : {64, 127, 128, 129, 130, 191}) { q.push_back({1, 1, n}); q.push_back({1, 2, n}); } for (int n = 0; n <= 7; n++) for (int k = 0; k <= n; k++) q.push_back({2, k, n}); for (int n = 8; n <= 14; n++) for (int k : {1, 2, n-3, n-2, n-1}) q.push_back({2, k, n}); for (int n : {15, 16, 17, 23, 31, 33, 64, 129, 256}) for (int k : {1, 2, n-2, n-1}) q.push_back({2, k, n}); q.push_back({2, 3, 24}); q.push_back({2, 3, 25}); q.push_back({2, 3, 40}); q.push_back({1, 3, 30}); q.push_back({2, 4, 16}); q.push_back({2, 4, 32}); q.push_back({0, 8, 8}); q.push_back({0, 9, 9}); q.push_back({1, 4, 20}); q.push_back({2, 3, 100}); q.push_back({2, 3, 129}); q.push_back({2, 5, 13}); return q; }();
  static const vector<std::array<int, 3>> D = {{1, 3, 192}, {2, 4, 40}, {0, 10, 10}, {2, 4, 64}};
  size_t nq = Q.size()+(ex.thorough? D.size() : 0); size_t qi = ex.pick(nq); auto& q = qi<Q.size()? Q[qi] : D[qi-Q.size()]; int what_ = q[0], k = q[1], n = q[2]; Gen g(1); ks.clear(); ch.clear(); overrun = false; Val xv((double)n), wv((double)k); string what = what_==0? mc::strf("Deal %d", n) : mc::strf("%d %s %d", k, what_==1? "Deal" : "Subset", n); 
  std::map<vector<int64_t>, uint64_t> seen; uint64_t leaves = 0; double expect = what_==2? choose(n, k) : falling(n, k); while (true) { mode = PICK; at = 0; BV r; ex.op(); int rc = what_==0? cb_c1(g.deal, cb_mknum(n), &r) : cb_c2(what_==1? g.deal : g.subset, cb_mknum(k), cb_mknum(n), &r); mode = REAL; if (rc) ex.fail("%s: %s", what.c_str(), cb_err()); if (overrun) ex.fail("%s draws without an end, or draws depend on what else was drawn", what.c_str()); if (leaves%64==0) form(ex, what, r); auto v = ints(ex, what, r); checkPart(ex, what, v, what_==0? n : k, n, what_==2); if (expect<2e6) seen[v]++; leaves++; cb_dec(r); if (leaves%1024==0) ex.tick(); if (!next()) break; ex.nodes++; }
  ex.compared(); ex.state(hashS(what)); bool raw = n==2 && what_<2 && (what_==0 || k==2); // (two elements are swapped by a bit)
  if (expect<2e6 && !raw) { if (seen.size()!=expect) ex.fail("%s\n  has %zu different results, expected %.0f", what.c_str(), seen.size(), expect); for (auto& [v, c] : seen) if (c!=seen.begin()->second) ex.fail("%s\n  gives %s in %llu of %llu outcomes, but %s in %llu", what.c_str(), showI(v).c_str(), (unsigned long long)c, (unsigned long long)leaves, showI(seen.begin()->first).c_str(), (unsigned long long)seen.begin()->second); }
  if (raw) { std::map<vector<int64_t>, int> m; for (uint64_t b = 0; b < 64; b++) { raws = {1ull<<b, ~(1ull<<b)}; for (int j = 0; j < 2; j++) { rawAt = j; mode = RAW; BV r; cb_c1(g.deal, cb_mknum(2), &r); mode = REAL; auto v = ints(ex, what, r); checkPart(ex, what, v, 2, 2, false); m[v]++; cb_dec(r); } } if (m.size()!=2 || m.begin()->second!=64) ex.fail("%s prefers one result", what.c_str()); }
  ex.outcome(hashS(what)+leaves); ex.say("%s: %llu outcomes, %zu results", what.c_str(), (unsigned long long)leaves, seen.size());
}
static void large(Ex& ex) { // sizes at which the method or the element type changes, patterned draws, one draw differing
  static const vector<std::array<int, 3>> Q = []() { vector<std::array<int, 3>> q; for (int n : {126, 127, 128, 129, 255, 32767, 32768, 32769, 65536, 524288, 524289, 600000, 1048577}) q.push_back({0, n, n}); for (int n : {127, 128, 129, 6400, 32768, 32769, 100000}) for (int k : {n-1, n/2, n/8, n/8+1, n/64-1, n/64, n/64+1, 1, 3}) if (k>0) { q.push_back({1, k, n}); q.push_back({2, k, n}); if (n-k>0) q.push_back({2, n-k, n}); } return q; }();
  auto& q = ex.of(Q); patK = ex.pick(9); devAt = -1; double seed = patK>=6? patK*12345.678 : 3; int dv = q[2]>40000? 0 : ex.pick(ex.thorough? 4 : 3); if (dv) { devV = dv-1; devAt = ex.of(vector<int>{0, 1, q[1]/2, q[1]-2}); if (devAt<0) return; } Gen g(seed); patN = 0; mode = PAT; string what = mc::strf("%d %s %d with draws of pattern %d%s", q[1], q[0]==2? "Subset" : "Deal", q[2], patK, dv? mc::strf(", draw %d of kind %d", devAt, devV).c_str() : ""); BV r; ex.op(); int rc = q[0]==0? cb_c1(g.deal, cb_mknum(q[1]), &r) : cb_c2(q[0]==1? g.deal : g.subset, cb_mknum(q[1]), cb_mknum(q[2]), &r); mode = REAL; if (rc) ex.fail("%s: %s", what.c_str(), cb_err()); form(ex, what, r); auto v = ints(ex, what, r); checkPart(ex, what, v, q[1], q[2], q[0]==2); cb_dec(r); uint64_t h = 0; for (auto x : v) h = h*31+x; ex.outcome(h); ex.state(hashS(what));
}
// --- Range
static const vector<double>& limits() { static const vector<double> L = {0, 1, 2, 3, 4, 5, 7, 8, 16, 100, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65536, 1000000, 1073741824, 2147483647, 2147483648.0, 2147483649.0, 4294967296.0, 1e15, 4503599627370496.0, 9007199254740991.0}; return L; }
static void ranges(Ex& ex) {
  static const vector<Val> W = []() { vector<Val> w; for (int i : {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 200}) w.push_back(Val(i)); w.push_back(Val::vec({})); for (auto s : vector<vector<int>>{{0}, {1}, {5}, {64}, {2, 3}, {0, 3}, {3, 0}, {1, 1, 1}, {8, 9}, {2, 0, 5}, {3, 4, 7}}) { vector<Val> v; for (int i : s) v.push_back(Val(i)); w.push_back(Val::vec(v)); } return w; }(); Val w = ex.of(W); double m = ex.of(limits()); int pk = ex.pick(10); vector<size_t> sh; if (w.isArr()) for (auto& e : w.it()) sh.push_back(e.n); else sh = {(size_t)w.n}; size_t n = 1; for (auto s : sh) n*= s; Gen g(5);
  for (auto& rp : repsOf(w, 1)) { raws.clear(); for (int i = 0; i < 64; i++) { static const uint64_t R[] = {0, ~0ull, 1, 0x8000000000000000ull, 0x0102040810204080ull, 0x7fffffffffffffffull, 0xffff0000ffff0000ull, 0x00ff00ff00ff00ffull}; raws.push_back(pk<8? R[pk] : pk==8? R[i%8] : (i*0x9E3779B97F4A7C15ull)^(i<<7)); } rawAt = 0; mode = RAW; string what = mc::strf("%s [%s] Range %.17g with draws of pattern %d", show(w).c_str(), rp.str().c_str(), m, pk); BV b = toB(w, rp), r; ex.op(); int rc = cb_c2(g.range, cb_inc(b), cb_mknum(m), &r); mode = REAL; if (rc) ex.fail("%s: %s", what.c_str(), cb_err()); form(ex, what, r); Val v = fromB(r); ex.compared(); if (!v.isArr() || v.a->sh!=sh) ex.fail("%s\n  gives shape %s", what.c_str(), show(v).c_str()); for (auto& e : v.it()) if (!e.isNum() || !(m==0? e.n>=0 && e.n<1 : e.n==floor(e.n) && e.n>=0 && e.n<m)) ex.fail("%s\n  gives %s", what.c_str(), show(e).c_str()); if (!same(b, w)) ex.fail("%s\n  changes 𝕨", what.c_str()); cb_dec(b); cb_dec(r); ex.outcome(hashS(what)); if (pk==0 && m) for (auto& e : v.it()) if (e.n!=0) ex.fail("%s\n  gives %s for the least draw", what.c_str(), show(e).c_str()); if (pk==1 && m) for (auto& e : v.it()) if (e.n!=m-1) ex.fail("%s\n  gives %s for the greatest draw", what.c_str(), show(e).c_str()); }
  if (w.isNum() && w.n==1) { raws = {pk==0? 0 : pk==1? ~0ull : pk*0x9E3779B97F4A7C15ull}; rawAt = 0; mode = RAW; string what = mc::strf("Range %.17g with draws of pattern %d", m, pk); BV r = run(ex, what, g.range, nullptr, Val(m)); mode = REAL; double d = cb_kind(r)==CK_NUM? cb_num(r) : -1; if (!(m==0? d>=0 && d<1 : d==floor(d) && d>=0 && d<m) || (m && pk==0 && d!=0) || (m && pk==1 && d!=m-1)) ex.fail("%s\n  gives %.17g", what.c_str(), d); }
}
static void lanes(Ex& ex) { // one draw serves many elements: each of them takes every value equally often, by all draws of equal lanes and of one lane
  static const vector<int> M = {2, 3, 4, 5, 8, 16, 64, 128, 129, 256, 300, 1024, 32768}; int m = ex.of(M); size_t n = ex.of(vector<size_t>{1, 7, 8, 9, 64, 70}); Gen g(5); bool pow2 = !(m&(m-1)); string what = mc::strf("%zu Range %d over all draws", n, m); vector<std::map<int64_t, int>> seen(n); int w = m==2? 1 : m<=128? 8 : m<=32768? 16 : 32; int total = pow2? 1<<w : m; if (!pow2) { ks.clear(); ch.clear(); // one choice per element
    for (int v = 0; v < m; v++) { mode = PICK; at = 0; overrun = false; ch.assign(n, v); ks.assign(n, m); BV r = run(ex, what, g.range, nullptr, Val(0)); (void)r; mode = PICK; at = 0; ch.assign(n, v); ks.assign(n, m); Val nv((double)n); BV q; int rc = cb_c2(g.range, cb_mknum(n), cb_mknum(m), &q); mode = REAL; if (rc || overrun) ex.fail("%s: %s", what.c_str(), rc? cb_err() : "other draws than one for each element"); auto o = ints(ex, what, q); for (size_t i = 0; i < n; i++) { seen[i][o[i]]++; } ex.compared(); cb_dec(q); } }
  else for (int v = 0; v < total; v++) { uint64_t lane = 0; for (int b = 0; b < 64; b+= w) lane|= (uint64_t)v<<b; raws = {lane}; rawAt = 0; mode = RAW; BV q; int rc = cb_c2(g.range, cb_mknum(n), cb_mknum(m), &q); ex.op(); mode = REAL; if (rc) ex.fail("%s: %s", what.c_str(), cb_err()); auto o = ints(ex, what, q); for (size_t i = 0; i < n; i++) seen[i][o[i]]++; ex.compared(); cb_dec(q); if (v%256==0) ex.tick(); }
  for (size_t i = 0; i < n; i++) { if ((int)seen[i].size()!=m) ex.fail("%s: element %zu takes %zu values, expected %d", what.c_str(), i, seen[i].size(), m); for (auto& [v, c] : seen[i]) if (c!=total/m || v<0 || v>=m) ex.fail("%s: element %zu is %lld in %d of %d draws", what.c_str(), i, (long long)v, c, total); }
  if (pow2 && m>2) { // a change of one lane of one draw changes at most the elements of that lane
    for (size_t lane = 0; lane < 64/w; lane++) { raws.assign(64, 0); BV q; raws[0] = (uint64_t)(m-1)<<(lane*w); rawAt = 0; mode = RAW; cb_c2(g.range, cb_mknum(n), cb_mknum(m), &q); mode = REAL; auto o = ints(ex, what, q); int c = 0; for (auto x : o) c+= x!=0; if (c>1) ex.fail("%zu Range %d: one lane of one draw decides %d elements", n, m, c); cb_dec(q); ex.op(); ex.compared(); } }
  ex.outcome(hashS(what));
}
// --- generators are functions of their seed and history, independent of each other
static Val doOp(Ex& ex, Gen& g, int o, const string& what) { BV r; Val v; switch (o) { case 0: r = run(ex, what, g.range, nullptr, Val(0)); break; case 1: r = run(ex, what, g.range, nullptr, Val(1000)); break; case 2: { Val w = Val::vec({Val(3), Val(5)}); r = run(ex, what, g.range, &w, Val(50)); break; } case 3: { Val w(70); r = run(ex, what, g.range, &w, Val(2)); break; } case 4: r = run(ex, what, g.deal, nullptr, Val(20)); break; case 5: { Val w(3); r = run(ex, what, g.deal, &w, Val(500)); break; } case 6: { Val w(4); r = run(ex, what, g.subset, &w, Val(9)); break; } case 7: { Val w(4); r = run(ex, what, g.subset, &w, Val(200)); break; } case 8: r = run(ex, what, g.deal, nullptr, Val(2)); break; default: { Val w(9); r = run(ex, what, g.range, &w, Val(0)); } } v = fromB(r); cb_dec(r); return v; }
static const char* ON[] = {"Range 0", "Range 1000", "3‿5 Range 50", "70 Range 2", "Deal 20", "3 Deal 500", "4 Subset 9", "4 Subset 200", "Deal 2", "9 Range 0"};
static void histories(Ex& ex) { // two generators interleaved in every way, against each alone
  static const vector<double> S = {0, -0.0, 1, 0.5, 123456789, -1e300, INFINITY, 5e-324}; double s1 = ex.of(S), s2 = ex.of(vector<double>{1, s1}); int depth = ex.thorough? 5 : 4; Gen a(s1), b(s2); vector<int> ha, hb; vector<Val> ra, rb; string hist; for (int i = 0; i < depth; i++) { int which = ex.pick(2), o = ex.pick(10); hist+= mc::strf(" ⋄ %s.%s", which? "b" : "a", ON[o]); Val v = doOp(ex, which? b : a, o, hist); (which? hb : ha).push_back(o); (which? rb : ra).push_back(v); }
  for (int which = 0; which < 2; which++) { Gen c(which? s2 : s1); auto& h = which? hb : ha; auto& r = which? rb : ra; for (size_t i = 0; i < h.size(); i++) { Val v = doOp(ex, c, h[i], hist); BV q = toB(v); bool eq = same(q, r[i]); cb_dec(q); ex.compared(); if (!eq) ex.fail("•MakeRand %g: operation %zu of %s%s gives %s, but %s when nothing else is drawn in between", which? s2 : s1, i, which? "b in" : "a in", hist.c_str(), show(r[i]).c_str(), show(v).c_str()); } }
  if (depth>=2 && ha.size()>=2 && ha[0]==ha[1] && (ha[0]==0 || ha[0]==9 || ha[0]==2 || ha[0]==3 || ha[0]==4)) { BV q = toB(ra[0]); if (same(q, ra[1])) ex.fail("•MakeRand %g gives the same twice:%s", s1, hist.c_str()); cb_dec(q); }
  ex.outcome(hashS(hist)); ex.state(hashS(hist)+s1);
}
static void shared(Ex& ex) { // all ways to reach one generator share its state
  int o = ex.pick(10), p = ex.pick(10); Gen a(7), c(7); Val e1 = doOp(ex, c, o, ON[o]), e2 = doOp(ex, c, p, ON[p]); BV g2 = cb_inc(a.g); Gen a2(g2, 0); Val v1 = doOp(ex, a, o, ON[o]), v2 = doOp(ex, a2, p, ON[p]); BV q = toB(v2); if (!same(q, e2)) ex.fail("a second reference to a generator does not share its state: %s then %s", ON[o], ON[p]); cb_dec(q); ex.compared(); BV r; if (cb_eval("•rand", &r)) ex.fail("•rand: %s", cb_err()); Gen d(r, 0); BV r2; cb_eval("•rand", &r2); if (r!=r2) { ex.fail("•rand is another generator the second time"); } Gen d2(r2, 0); Val x = doOp(ex, d, 0, "•rand.Range 0"), y = doOp(ex, d2, 0, "•rand.Range 0"); if (x.n==y.n) ex.fail("•rand gives the same twice"); 
}
static void refused(Ex& ex) {
  Gen g(1); auto bad = [&](BV f, const char* n, const Val* w, const Val& x) { BV r; ex.op(); ex.compared(); int rc = w? cb_c2(f, toB(*w), toB(x), &r) : cb_c1(f, toB(x), &r); if (!rc) ex.fail("%s%s %s is no error, but %s", w? (show(*w)+" ").c_str() : "", n, show(x).c_str(), show(fromB(r)).c_str()); }; vector<Val> N = {Val(-1), Val(0.5), Val(INFINITY), Val(-INFINITY), Val(NAN), Val(1e300), Val::chr('a'), Val::vec({}), Val::vec({Val(3)}), Val::str("a")}; Val one(1), five(5), three(3), zero(0.0);
  for (auto& x : N) { bad(g.range, "Range", nullptr, x); bad(g.range, "Range", &five, x); bad(g.deal, "Deal", nullptr, x); bad(g.deal, "Deal", &one, x); bad(g.subset, "Subset", &one, x); bad(g.deal, "Deal", &x, five); bad(g.subset, "Subset", &x, five); if (!(x.isArr() && x.ia()<=1 && (x.ia()==0 || x.it()[0].isNum()))) bad(g.range, "Range", &x, five); Val l = Val::vec({Val(2), x}); bad(g.range, "Range", &l, five); bad(fnOf("•MakeRand"), "•MakeRand", nullptr, x.isNum()? Val::chr('a') : x); }
  for (int n = 0; n < 6; n++) { Val k((double)(n+1)), nv((double)n); bad(g.deal, "Deal", &k, nv); bad(g.subset, "Subset", &k, nv); } bad(g.subset, "Subset", nullptr, five); Val big(3e9); bad(g.deal, "Deal", nullptr, big); bad(g.range, "Range", &five, Val(9007199254740992.0)); Val m2 = Val::arr({1, 2}, {Val(2), Val(2)}); bad(g.range, "Range", &m2, five); Val huge = Val::vec({Val(1e12), Val(1e12)}); bad(g.range, "Range", &huge, five); BV r; Val z = Val::vec({Val(1e12), Val(1e12), Val(0)}); BV q = run(ex, "1e12‿1e12‿0 Range 5", g.range, &z, five); if (cb_ia(q)!=0 || cb_rank(q)!=3 || cb_shape(q)[0]!=1000000000000ull) ex.fail("1e12‿1e12‿0 Range 5 has a wrong shape"); cb_dec(q); 
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C26"; c.assumptions = {"the draws of the generator (wyrand) are uniform and independent; uniformity is that of the results over all draws"};
  c.init = []() { cb_init(); fnOf("•MakeRand"); BV r; cb_eval("•rand", &r); cb_gc(); };
  c.perRun = gcEvery(32);
  c.sc = {{"outcomes", 1, outcomes, 3, "every sequence of draws of Deal (up to 9 (10) elements), k Deal and k Subset (up to 7 elements, of a few up to 256): each result is right, all occur, all equally often"},
          {"large", 2, large, 3, "70 sizes at which methods change × 9 patterns of draws × one draw differing in 2 (3) ways at 4 places"},
          {"ranges", 2, ranges, 3, "33 shapes × 29 limits × 10 patterns of draws"},
          {"lanes", 2, lanes, 3, "13 limits × 6 lengths: every value of every lane of a draw"},
          {"histories", 3, histories, 3, "8 seeds, equal or not: all interleavings of 4 (5) of 10 operations on two generators"},
          {"shared", 1, shared, 3, "all pairs of 10 operations through two references"},
          {"refused", 0, refused, 3, "140 calls that are errors"}};
  return mainMC(argc, argv, c);
}
