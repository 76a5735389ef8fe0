// Structural functions: every result is determined position by position.
#include "gen.hpp"
using namespace bq;
static Val filled(const Val& v) { if (!v.isArr()) return v; bool n = true, c = true; for (auto& x : v.it()) { n&= x.isNum(); c&= x.isChr(); } return n? v.withFill(Val(0)) : c? v.withFill(Val::chr(' ')) : v.withFill(Val(0)); }
static Outcome o1(const string& g, const Val& x) { return outcomeOf([&]() { return p1(g, x); }); }
static Outcome o2(const string& g, const Val& w, const Val& x) { return outcomeOf([&]() { return p2(g, w, x); }); }
static const vector<string> MON = {"⥊","∾","≍","⋈","↑","↓","↕","«","»","⌽","⍉","<",">","⊢","⊣"};
static const vector<Sh> SHAPES = {{}, {0}, {1}, {2}, {3}, {8}, {64}, {65}, {0,2}, {2,0}, {1,1}, {2,3}, {3,2}, {1,5}, {5,1}, {8,8}, {9,7}, {2,64}, {64,2}, {3,65}, {2,3,2}, {2,0,3}, {0,3,2}, {3,1,4}, {2,8,4}, {1,1,1,1}, {2,3,2,2}, {2,2,2,8}};
static void mono(Ex& ex) {
  const string& g = ex.of(MON); const Sh& s = ex.of(SHAPES); int fam = ex.pick(FAM_N+1);
  Val x = fam==FAM_N? (s.size()? Val::arr(s, vector<Val>(prod(s), Val::vec({1,2}))) : Val(7)) : filled(famArr(fam, s, 5, 3));
  if ((g=="↑" || g=="↓") && s.size() && s[0]>9 && fam>2) return;
  all1(ex, g, fnOf(g), x, o1(g, x), 2);
}
static void lengths(Ex& ex) { // one axis of every length, cells of 1, 2, 3 and 8 items
  string g = ex.of(vector<string>{"⌽","⍉","«","»","⥊","≍"}); int fam = ex.pick(FAM_N); size_t n = ex.pick(ex.thorough? 270 : 135); size_t c = ex.of(vector<size_t>{0,1,2,3,8});
  if (n>70 && fam>=FAM_I16 && c>1 && !ex.thorough) return;
  Val x = filled(famArr(fam, c? Sh{n, c} : Sh{n}, 300, 5));
  all1(ex, g, fnOf(g), x, o1(g, x), n<70? 1 : 0);
}
static const vector<size_t> DIM = {0,1,2,3,4,5,7,8,9,15,16,17,31,32,33,63,64,65};
static void transposes(Ex& ex) {
  int fam = ex.pick(FAM_N); size_t h = ex.of(DIM), w = ex.of(DIM); if ((h>20 && w>20) && fam>=FAM_MIX) return;
  int form = ex.pick(4);
  Val x;
  if (form==0) { x = famArr(fam, {h,w}, 300, 6); all1(ex, "⍉", fnOf("⍉"), x, o1("⍉", x), h*w<600? 1 : 0); return; }
  if (h>33 || w>33) return;
  x = famArr(fam, form==1? Sh{h,w,2} : form==2? Sh{2,h,w} : Sh{h,2,w}, 300, 6);
  all1(ex, "⍉", fnOf("⍉"), x, o1("⍉", x), 0);
  for (const char* g : {"⍉"}) { Val p = form==1? numsV({1,0,2}) : form==2? numsV({0,2,1}) : numsV({2,0,1}); all2(ex, g, fnOf(g), p, x, o2(g, p, x), 0, 0); }
}
static void axes(Ex& ex) { // 𝕨⍉𝕩 and its inverse: every axis vector
  static const vector<Sh> S = {{}, {0}, {3}, {2,3}, {3,3}, {2,3,4}, {3,2,2}, {2,0,3}, {2,3,2,2}, {16,4,8}, {4,8,2,3}};
  const Sh& s = ex.of(S); int len = ex.pick(s.size()+2); vector<Val> w; for (int i = 0; i < len; i++) w.push_back(Val((int)ex.pick(s.size()+1)));
  if (len==0 && ex.pick(2)) w.push_back(Val(-1));
  int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_I16, FAM_I32, FAM_F64, FAM_C8, FAM_NEST});
  Val x = famArr(fam, s, 100, 9), W = Val::vec(w);
  all2(ex, "⍉", fnOf("⍉"), W, x, o2("⍉", W, x), 0, 0);
  if (len==1) { Outcome o = o2("⍉", w[0], x); all2(ex, "⍉", fnOf("⍉"), w[0], x, o, 0, 0); }
}
static void takes(Ex& ex) { // ↑ ↓ ⌽ of a list or matrix by every count around its length
  string g = ex.of(vector<string>{"↑","↓","⌽"}); int fam = ex.pick(FAM_N); static const vector<size_t> N = {0,1,2,3,7,8,9,17,31,33,63,64,65,100,129,260};
  size_t n = ex.of(N); size_t c = ex.of(vector<size_t>{0,1,2,5}); if (n>70 && c) return;
  vector<long> ks = {0,1,2,3,7,8,9,15,16,31,32,33,40,63,64,65,70,128,300};
  for (long q : {(long)n-1, (long)n, (long)n+1, (long)n/2, (long)n/4, (long)n/4+1, (long)(2*n), 1000l}) if (q>0) ks.push_back(q);
  long k = ex.of(ks); if (ex.flag()) k = -k;
  Val x = filled(famArr(fam, c? Sh{n,c} : Sh{n}, 300, 5)), w = Val((double)k);
  Outcome o = o2(g, w, x); ex.outcome(o.err? 1 : o.unspec? 2 : hashV(o.v));
  for (auto& r : repsOf(x, n<70? 2 : 1)) call2(ex, g, fnOf(g), w, {}, x, r, o);
  ex.tick();
  if (n<10) { Val wl = Val::vec({w}); Outcome ol = o2(g, wl, x); all2(ex, g, fnOf(g), wl, x, ol, 1, 0); Val wu = unitOf(w); all2(ex, g, fnOf(g), wu, x, o2(g, wu, x), 0, 0); }
}
static void multiaxis(Ex& ex) {
  string g = ex.of(vector<string>{"↑","↓","⌽","↕"}); static const vector<Sh> S = {{}, {4}, {2,3}, {3,2}, {1,3}, {0,2}, {2,3,2}, {2,1,3}, {2,2,2,2}};
  const Sh& s = ex.of(S); size_t len = ex.pick(4); if (s.size()==4 && len==1) return;
  vector<int> K = {0,1,2,3,4,-1,-2,-3,-4}; if (len==3 && !ex.thorough) K = {0,1,2,3,-1,-3};
  vector<Val> w; for (size_t i = 0; i < len; i++) w.push_back(Val(ex.of(K)));
  int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_F64, FAM_C16, FAM_NEST}); if (len==3 && fam!=FAM_BIT && fam!=FAM_I8 && fam!=FAM_NEST) return;
  Val x = filled(famArr(fam, s, 100, 9)), W = Val::vec(w);
  all2(ex, g, fnOf(g), W, x, o2(g, W, x), len<3? 1 : 0, len<3? 1 : 0);
  // the same on axes wide enough for whole-cell copies
}
static void wideaxes(Ex& ex) { // two and three leading axes with larger shapes
  string g = ex.of(vector<string>{"↑","↓","⌽"}); static const vector<Sh> S = {{4,70}, {70,4}, {3,5,33}, {16,16}, {3,64,2}};
  const Sh& s = ex.of(S); vector<Val> w; size_t len = 1+ex.pick(s.size());
  for (size_t i = 0; i < len; i++) { long n = s[i]; w.push_back(Val((double)ex.of(vector<long>{0, 1, n-1, n, n+1, n+7, -1, 1-n, -n-1, -n-9}))); }
  if (len==3 && !ex.thorough && (w[0].n==0 || w[1].n==0)) return;
  int fam = ex.of(len==3 && !ex.thorough? vector<int>{FAM_BIT, FAM_I16} : vector<int>{FAM_BIT, FAM_I8, FAM_I32, FAM_F64, FAM_C8, FAM_NEST});
  Val x = filled(famArr(fam, s, 100, 9)), W = Val::vec(w);
  all2(ex, g, fnOf(g), W, x, o2(g, W, x), 0, 0);
}
static void reshapes(Ex& ex) { // every source length × result length
  int fam = ex.pick(FAM_N); size_t n = ex.pick(ex.thorough || fam==FAM_BIT? 140 : 40);
  static const vector<size_t> R = {0,1,2,3,7,8,9,15,16,17,31,32,33,48,63,64,65,66,70,100,127,128,129,191,192,193,200,255,256,257,300,520};
  size_t m = ex.of(R);
  Val x = famArr(fam, {n}, 300, n+1), w = Val((double)m);
  all2(ex, "⥊", fnOf("⥊"), w, x, o2("⥊", w, x), 0, n<20? 1 : 0);
}
static void reshapeBig(Ex& ex) { // block copies beyond 1<<15 bytes
  int fam = ex.pick(FAM_N); size_t n = ex.of(vector<size_t>{1,2,3,4,5,7,8,9,31,64,65,1000,1024,4095,8191,32767,32768,32769}); size_t m = ex.of(vector<size_t>{4096, 32767, 32768, 32769, 65536, 70001, 100003, 270000});
  if (fam>=FAM_MIX && m>70001) return; if (!ex.thorough && m>100003 && fam!=FAM_BIT && fam!=FAM_I8) return;
  Val x = famArr(fam, {n}, 300, n+1), w = Val((double)m); Outcome o = o2("⥊", w, x);
  call2(ex, "⥊", fnOf("⥊"), w, {}, x, {}, o); ex.tick();
}
static Val comp(char c) { Val v; v.k = Val::FUN; v.n = c; return v; }
static void reshapeShapes(Ex& ex) { // shape vectors with a computed axis, of sources of every small shape
  static const vector<Sh> S = {{}, {0}, {1}, {5}, {6}, {7}, {2,3}, {3,0}, {2,2,3}, {64}, {65}};
  const Sh& s = ex.of(S); int len = ex.pick(4); vector<Val> w; vector<BV> wb;
  static const vector<double> K = {0,1,2,3,5,7,-1,0.5};
  int hole = ex.pick(len+1); int mode = hole<len? ex.pick(4) : 0;
  for (int i = 0; i < len; i++) w.push_back(i==hole? comp("ofrt"[mode]) : Val(ex.of(K)));
  int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_F64, FAM_C8, FAM_NEST});
  Val x = filled(famArr(fam, s, 100, 4));
  if (!s.size() && ex.flag()) x = x.it()[0];
  Outcome o = o2("⥊", Val::vec(w), x); ex.outcome(o.err? 1 : o.unspec? 2 : hashV(o.v));
  static const char* FN[] = {"∘","⌊","⌽","↑"};
  for (auto& r : repsOf(x, 1)) for (int unit = 0; unit < (len==1? 2 : 1); unit++) {
    if (hole==len && !unit) { call2(ex, "⥊", fnOf("⥊"), Val::vec(w), {}, x, r, o); continue; }
    vector<BV> it; for (auto& v : w) it.push_back(v.k==Val::FUN? cb_inc(fnOf(string(mode==0? "∘" : FN[mode]))) : toB(v));
    BV a; if (unit) a = it[0]; else { size_t sh[1] = {it.size()}; a = cb_mkarr(CE_B, it.size(), 1, sh, it.data()); }
    BV b = toB(x, r), q; int rc = cb_c2(fnOf("⥊"), a, b, &q);
    judge(ex, strf("%s ⥊ %s   [axis %d computed by %s; 𝕩 %s]", show(Val::vec(w)).c_str(), show(x).c_str(), hole, hole<len? FN[mode] : "-", r.str().c_str()), rc, q, o);
  }
  ex.tick();
}
static vector<Val> ITEMS;
static void join1list(Ex& ex) { int n = 1+ex.pick(3); vector<Val> it; for (int i = 0; i < n; i++) it.push_back(ex.of(ITEMS)); Val x = Val::vec(it); all1(ex, "∾", fnOf("∾"), x, o1("∾", x), 0); all1(ex, ">", fnOf(">"), x, o1(">", x), 0); }
static void join1mat(Ex& ex) { // blocks on two and three axes
  static const vector<Sh> S = {{2,2}, {1,2}, {2,1}, {1,1}, {3,2}, {2,2,2}, {1,2,2}, {1,3}, {2,3}};
  const Sh& s = ex.of(S); size_t k = s.size();
  // each index of each axis gets a length 0..2 or is a cell (no axis); items follow, and optionally one item is wrong
  vector<vector<int>> len(k); for (size_t a = 0; a < k; a++) for (size_t i = 0; i < s[a]; i++) len[a].push_back(ex.pick(a==2 || s[a]==3? 3 : 4)); // 3: cell
  int tr = ex.pick(2); int bad = ex.pick(3); int fam = ex.of(vector<int>{FAM_I8, FAM_F64, FAM_MIX});
  if (k==3 && fam!=FAM_I8) return;
  vector<Val> it; Sh ix(k, 0); size_t n = prod(s), q = 0;
  for (size_t j = 0; j < n; j++) {
    Sh is; for (size_t a = 0; a < k; a++) { int l = len[a][ix[a]]; if (l<3) is.push_back(l); }
    if (tr) is.push_back(2);
    if (bad==1 && j==n-1) { if (is.size()) is.back()++; else is.push_back(1); }
    if (bad==2 && j==n/2) { if (is.size()) is.pop_back(); else is.push_back(2); }
    Val v = famArr(fam, is, 100, 5*j+1+q); it.push_back(is.empty() && j%2? v.it()[0] : v);
    for (size_t a = k; a--;) { if (++ix[a]<s[a]) break; ix[a] = 0; }
  }
  Val x = Val::arr(s, it); Outcome o = o1("∾", x);
  call1(ex, "∾", fnOf("∾"), x, {}, o); ex.outcome(o.err? 1 : hashV(o.v));
}
static void joinLong(Ex& ex) { // blocks along an axis of four to six
  static const vector<Sh> S = {{4,2}, {2,4}, {1,5}, {5,1}, {6}, {1,6}, {5,2}}; const Sh& s = ex.of(S); size_t k = s.size(); vector<vector<int>> len(k); for (size_t a = 0; a < k; a++) for (size_t i = 0; i < s[a]; i++) len[a].push_back(s[a]>2? ex.of(vector<int>{1, 2, 3}) : 1+ex.pick(2)); int tr = ex.pick(2), fam = ex.of(vector<int>{FAM_I8, FAM_MIX}); vector<Val> it; Sh ix(k, 0); for (size_t j = 0; j < prod(s); j++) { Sh is; for (size_t a = 0; a < k; a++) if (len[a][ix[a]]<3) is.push_back(len[a][ix[a]]); if (tr) is.push_back(2); Val v = famArr(fam, is, 100, 5*j+1); it.push_back(is.empty() && j%2? v.it()[0] : v); for (size_t a = k; a--;) { if (++ix[a]<s[a]) break; ix[a] = 0; } }
  Val x = Val::arr(s, it); Outcome o = o1("∾", x); call1(ex, "∾", fnOf("∾"), x, {}, o); ex.outcome(o.err? 1 : hashV(o.v));
}
static string showSh(const Sh& s) { vector<Val> v; for (auto k : s) v.push_back(Val(k)); return show(Val::vec(v)); }
static void joinNone(Ex& ex) { // ∾ of no items: the shape is that of 𝕩 times the leading axes of its fill, then the others
  static const vector<Sh> S = {{0}, {0,2}, {2,0}, {3,0,2}, {0,0}, {1,0}}, FS = {{}, {0}, {2}, {3}, {2,3}, {0,4}, {3,1,2}, {2,2,2,2}}; const Sh& s = ex.of(S); const Sh& fs = ex.of(FS); int fam = ex.of(vector<int>{FAM_BIT, FAM_I8, FAM_C16, FAM_F64}); bool chr = fam==FAM_C16; Val f = Val::arr(fs, vector<Val>(prod(fs), chr? Val::chr(' ') : Val(0))).withFill(chr? Val::chr(' ') : Val(0)); Val x = Val::arr(s, {}).withFill(f); Outcome o; if (fs.size()<s.size()) o.err = true; else { Sh r = fs; for (size_t i = 0; i < s.size(); i++) r[i] = s[i]*fs[i]; o.v = Val::arr(r, {}); }
  for (int sh = 0; sh < 2; sh++) { BV b = toB(x), keep = sh? cb_inc(b) : 0, r; int rc = cb_c1(fnOf("∾"), b, &r); ex.op(); ex.compared(); if ((rc!=0)!=o.err) ex.fail("∾ of an empty array of shape %s whose fill is %s %s", showSh(s).c_str(), show(f).c_str(), rc? "is an error" : "is no error"); if (!rc) { Val v = fromB(r); if (v.sh()!=o.v.sh()) ex.fail("∾ of an empty array of shape %s whose fill is %s has shape %s, expected %s", showSh(s).c_str(), show(f).c_str(), showSh(v.sh()).c_str(), showSh(o.v.sh()).c_str()); BV g; if (cb_fill(r, &g)) { if (!same(g, chr? Val::chr(' ') : Val(0))) ex.fail("∾ of an empty array whose fill is %s has the fill %s", show(f).c_str(), show(fromB(g)).c_str()); } cb_dec(r); } if (sh) cb_dec(keep); }
}
static void join2(Ex& ex) { // 𝕨∾𝕩, 𝕨≍𝕩, 𝕨⋈𝕩 and 𝕨»𝕩 over all pairs of shapes and item families
  string g = ex.of(vector<string>{"∾","≍","⋈","»","«"}); static const vector<Sh> S = {{}, {0}, {1}, {2}, {3}, {9}, {0,2}, {1,2}, {2,2}, {3,2}, {2,3}, {2,0}, {2,2,2}, {1,3,2}};
  const Sh& s = ex.of(S); int fw = ex.pick(FAM_N+1); const Sh& t = ex.of(S); int fx = ex.pick(FAM_N+1);
  if (fw==FAM_N && s.size()) return; if (fx==FAM_N && t.size()) return;
  Val w = fw==FAM_N? Val(3) : famArr(fw, s, 100, 1), x = fx==FAM_N? Val::chr('q') : famArr(fx, t, 100, 2);
  star2(ex, g, fnOf(g), w, x, o2(g, w, x), s.size()<2 && t.size()<2? 1 : 0);
}
static void join2len(Ex& ex) { // lengths around the allocation classes: the in-place append
  string g = ex.of(vector<string>{"∾","»","«"}); int fw = ex.pick(FAM_N), fx = ex.pick(FAM_N);
  static const vector<size_t> N = {0,1,7,8,9,31,32,33,63,64,65,127,130}; size_t n = ex.of(N), m = ex.of(N); bool same = fw==fx; if (!same && !ex.thorough && n>9 && m>9 && (n*m)%3!=1) return;
  Val w = famArr(fw, {n}, 300, 1), x = famArr(fx, {m}, 300, 2);
  Outcome o = o2(g, w, x); star2(ex, g, fnOf(g), w, x, o, same? 1 : 0);
  if (m==1) { Val a = x.it()[0]; star2(ex, g, fnOf(g), w, a, o2(g, w, a), 1); star2(ex, g, fnOf(g), a, w, o2(g, a, w), 1); }
}
static void appends(Ex& ex) { // k appends in a row to one array, optionally sharing it or slicing it in between
  int fam = ex.pick(FAM_N), nf = ex.pick(FAM_N), act = ex.pick(4), mode = ex.pick(2); size_t n = ex.of(vector<size_t>{0,1,5,8,13,30,62});
  Val m = famArr(fam, {n}, 90, 4); BV b = toB(m), hold = 0; Val held; string hist = show(m); BV f = fnOf("∾");
  for (int k = 0; k < 12; k++) {
    int ff = k>=6? nf : fam; Val it = famArr(ff, {(size_t)(1+k%3)}, 90, k+3); bool atom = mode==0 && it.ia()==1 && !it.it()[0].isArr(); Val a = atom? it.it()[0] : it;
    if (k%4==act && k) { if (hold) { string why; if (!same(hold, held)) ex.fail("%s: an earlier reference changed to %s, expected %s", hist.c_str(), show(fromB(hold)).c_str(), show(held).c_str()); cb_dec(hold); } hold = cb_inc(b); held = m; hist+= " (shared)"; }
    BV r; if (cb_c2(f, b, toB(a), &r)) ex.fail("%s ∾ %s: error %s", hist.c_str(), show(a).c_str(), cb_err());
    b = r; m = p2("∾", m, a); hist+= " ∾ "+show(a); string why; ex.op(); ex.compared();
    if (!wellFormed(b, &why)) ex.fail("%s: malformed: %s", hist.c_str(), why.c_str());
    if (!same(b, m)) ex.fail("%s\n  gives    %s\n  expected %s", hist.c_str(), show(fromB(b)).c_str(), show(m).c_str());
  }
  if (hold) { if (!same(hold, held)) ex.fail("%s: an earlier reference changed to %s", hist.c_str(), show(fromB(hold)).c_str()); cb_dec(hold); }
  cb_dec(b); ex.outcome(hashV(m));
}
static void ranges(Ex& ex) {
  int form = ex.pick(3);
  if (form==0) { double n = ex.of(vector<double>{0,1,2,127,128,129,255,256,257,32767,32768,32769,65536,100000,-1,0.5,1e18,INFINITY,NAN}); Val x(n); call1(ex, "↕", fnOf("↕"), x, {}, o1("↕", x)); return; }
  int k = ex.pick(5); vector<Val> v; for (int i = 0; i < k; i++) v.push_back(Val(ex.of(k<4? vector<int>{0,1,2,3,5,-1} : vector<int>{0,1,2})));
  if (form==2 && k==2) { v[0] = Val(v[0].n*40); v[1] = Val(v[1].n*50); }
  Val x = Val::vec(v); all1(ex, "↕", fnOf("↕"), x, o1("↕", x), 0); ex.tick();
}
static void windowsS(Ex& ex) {
  static const vector<Sh> S = {{0}, {1}, {5}, {10}, {65}, {130}, {4,3}, {9,2}, {3,4,2}, {66,3}}; const Sh& s = ex.of(S); int fam = ex.pick(FAM_N);
  size_t len = 1+ex.pick(s.size()); vector<Val> w; for (size_t i = 0; i < len; i++) { long n = s[i]; w.push_back(Val((double)ex.of(vector<long>{0,1,2,3,8,9,n-1,n,n+1,n+2,-1}))); }
  Val x = famArr(fam, s, 100, 3); Val W = len==1 && ex.flag()? w[0] : Val::vec(w); all2(ex, "↕", fnOf("↕"), W, x, o2("↕", W, x), 0, 0);
}
static void tworeverse(Ex& ex) { // ⌽ by lists over the leading axes, including huge amounts
  double k = ex.of(vector<double>{1e9, -1e9, 2147483647, -2147483648.0, 4294967296.0, 9007199254740991.0, -9007199254740991.0, 0.5, NAN, INFINITY}); size_t n = ex.of(vector<size_t>{0,1,2,3,7,64,65,100}); int fam = ex.pick(FAM_N); int two = ex.pick(2); string g = ex.of(vector<string>{"⌽", "↓"});
  Val x = famArr(fam, two? Sh{n,3} : Sh{n}, 100, 3), w = two? Val::vec({Val(k), Val(-k)}) : Val(k); all2(ex, g, fnOf(g), w, x, o2(g, w, x), 0, 0);
}
static void badcounts(Ex& ex) { // an invalid item at every position of a count list
  string g = ex.of(vector<string>{"↑","↓","⌽","⥊","↕","⍉"}); static const vector<Sh> S = {{}, {3}, {0}, {2,3}, {3,0}, {3,3}, {2,3,2}, {70,2}}; const Sh& s = ex.of(S); int len = 1+ex.pick(3); vector<Val> w; static const vector<Val> A = {0, 1, -1, 2, 0.5, 1e20, -1.5, Val((double)NAN), Val((double)INFINITY), Val::chr('a'), Val::vec({Val(0)}), unitOf(Val(1))};
  for (int i = 0; i < len; i++) w.push_back(A[ex.pick(len<3? A.size() : i==0? 4 : 9)]); int fam = ex.of(vector<int>{FAM_BIT, FAM_I16, FAM_NEST}); if (len==3 && fam==FAM_NEST) return;
  Val x = filled(famArr(fam, s, 100, 9)), W = Val::vec(w); all2(ex, g, fnOf(g), W, x, o2(g, W, x), 0, 0); if (len==1) all2(ex, g, fnOf(g), w[0], x, o2(g, w[0], x), 0, 0);
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C04"; c.assumptions = {"taking beyond the end of an array whose fill is unknown is unspecified in this configuration"};
  c.init = []() {
    cb_init(); for (auto g : {"⥊","∾","≍","⋈","↑","↓","↕","«","»","⌽","⍉","<",">","⊢","⊣","∘","⌊"}) fnOf(g);
    ITEMS = {Val(5), Val::chr('c'), unitOf(Val(300)), Val::vec({}), numsV({1}), numsV({1,0.5}), Val::str("abc"), Val::arr({0,2}, {}), Val::arr({1,2}, {1,2}), Val::arr({2,2}, {1,2,3,4}), Val::arr({2,1}, {Val(1), Val::chr('x')}), Val::vec({Val::vec({1,2})}), Val::arr({1,2,2}, {1,2,3,4})};
    while (ITEMS.size()<15) ITEMS.push_back(famArr(FAM_BIT, {ITEMS.size()*3+25}, 2, 3));
  };
  c.perRun = gcEvery(500); c.after = sharedIntact;
  c.sc = {{"monadic", 2, mono, 3, "15 functions × 28 shapes × 11 families × all representations"},
          {"lengths", 2, lengths, 3, "6 functions × 10 families × every length 0–134 (269) × 5 cell sizes"},
          {"transpose", 2, transposes, 3, "⍉ of all 18² matrix sizes × 10 families, and rank 3 in 3 layouts"},
          {"axes", 2, axes, 3, "𝕨⍉𝕩 for every axis vector of 11 shapes × 7 families"},
          {"take-drop-rotate", 2, takes, 3, "↑ ↓ ⌽ × 10 families × 16 lengths × 4 cell sizes × 54 counts × all representations"},
          {"multi-axis", 2, multiaxis, 3, "↑ ↓ ⌽ ↕ with every 0–3-item 𝕨 in ¯4..4 × 9 shapes"},
          {"wide-axes", 2, wideaxes, 3, "↑ ↓ ⌽ with boundary counts on 1–3 axes of 5 larger shapes"},
          {"reshape", 2, reshapes, 3, "every source length 0–39 (139) × 32 result lengths × 10 families × all representations"},
          {"reshape-big", 2, reshapeBig, 3, "18 source lengths × 8 results of up to 270000 items × 10 families"},
          {"reshape-shape", 2, reshapeShapes, 3, "11 source shapes × every shape of up to 3 axes with a computed axis in 4 ways"},
          {"join-list", 2, join1list, 3, "∾ and > of every list of 1–3 of 15 items"},
          {"join-blocks", 2, join1mat, 3, "∾ of block arrays of 9 shapes: every assignment of lengths 0–2 or missing axes, consistent or spoilt"},
          {"join-long", 2, joinLong, 3, "∾ of block arrays with four to six blocks along an axis, of 1, 2 or no length each"},
          {"join-none", 2, joinNone, 3, "∾ of empty arrays of 6 shapes × fills of 8 shapes × 4 types"},
          {"join-pairs", 3, join2, 3, "∾ ≍ ⋈ » « over all pairs of 14 shapes × 11² kinds"},
          {"join-lengths", 3, join2len, 3, "∾ » « over 13² lengths × 10² families"},
          {"appends", 3, appends, 3, "12 appends in a row to one array: 10² families, sharing at 4 phases"},
          {"range", 1, ranges, 3, "↕ of 19 numbers and every list of up to 4 lengths"},
          {"windows", 2, windowsS, 3, "𝕨↕𝕩 over 10 shapes × boundary window sizes"},
          {"bad-counts", 2, badcounts, 3, "every list of up to 3 of 12 valid and invalid counts × 6 functions × 8 shapes"},
          {"rotate-far", 1, tworeverse, 3, "⌽ ↓ by huge and invalid amounts"}};
  return mainMC(argc, argv, c);
}
