// •HashMap: every sequence of operations against an ordered map. Built twice: with the real hash, and with the test hash
// that makes a number hash to itself, so that every collision pattern can be laid out.
#include "gen.hpp"
using namespace bq;
#ifdef MAP_BAD
static const bool BAD = true;
#else
static const bool BAD = false;
#endif
struct Map {
  Ex& ex; BV ns = 0, set, del, get, has, cnt, keys, vals; vector<std::pair<Val,Val>> m; string hist; bool long_ = false;
  BV heldK = 0, heldV = 0; Val hk, hv;
  Map(Ex& e) : ex(e) {}
  int at(const Val& k) { for (size_t i = 0; i < m.size(); i++) if (matchV(m[i].first, k)) return i; return -1; }
  void build(const vector<Val>& k, const vector<Val>& v, Rep rk = {}, Rep rv = {}) {
    hist = show(Val::vec(k))+" •HashMap "+show(Val::vec(v));
    BV r; if (cb_c2(fnOf("•HashMap"), toB(Val::vec(k), rk), toB(Val::vec(v), rv), &r)) ex.fail("%s fails: %s", hist.c_str(), cb_err());
    take(r); for (size_t i = 0; i < k.size(); i++) m.push_back({k[i], v[i]}); ex.op();
  }
  void take(BV r) { ns = r; if (cb_field(ns, "set", &set) || cb_field(ns, "delete", &del) || cb_field(ns, "get", &get) || cb_field(ns, "has", &has) || cb_field(ns, "count", &cnt) || cb_field(ns, "keys", &keys) || cb_field(ns, "values", &vals)) ex.fail("%s: a field is missing", hist.c_str()); }
  void log(const string& s) { if (hist.size()<1500) hist+= s; else if (!long_) { hist+= " …"; long_ = true; } if (ex.verbose) ex.say("%s", s.c_str()); }
  void Set(const Val& k, const Val& v, const Rep& r = {}) {
    log(" ⋄ "+show(k)+" Set "+show(v)); BV q; if (cb_c2(set, toB(k, r), toB(v), &q)) ex.fail("%s\n  fails: %s", hist.c_str(), cb_err());
    if (cb_kind(q)!=CK_NSP) ex.fail("%s\n  does not return the map", hist.c_str()); cb_dec(q); ex.op();
    int i = at(k); if (i<0) m.push_back({k, v}); else m[i].second = v;
  }
  void Delete(const Val& k, const Rep& r = {}) {
    log(" ⋄ Delete "+show(k)); int i = at(k); BV q; int rc = cb_c1(del, toB(k, r), &q); ex.op();
    if (rc && i>=0) ex.fail("%s\n  fails: %s", hist.c_str(), cb_err()); if (!rc && i<0) ex.fail("%s\n  succeeds although the key is missing", hist.c_str());
    if (!rc) { cb_dec(q); m.erase(m.begin()+i); }
  }
  void look(const Val& k, const Rep& r = {}) { // Get, Get with a default, Has
    int i = at(k); BV q; int rc = cb_c1(get, toB(k, r), &q); ex.op(3); ex.compared(3);
    if (rc && i>=0) ex.fail("%s\n  Get %s fails: %s", hist.c_str(), show(k).c_str(), cb_err()); if (!rc && i<0) ex.fail("%s\n  Get %s gives %s for a missing key", hist.c_str(), show(k).c_str(), show(fromB(q)).c_str());
    if (!rc) { if (!same(q, m[i].second)) ex.fail("%s\n  Get %s gives %s, expected %s", hist.c_str(), show(k).c_str(), show(fromB(q)).c_str(), show(m[i].second).c_str()); cb_dec(q); }
    Val d = Val::str("default"); if (cb_c2(get, toB(d), toB(k, r), &q)) ex.fail("%s\n  Get with a default fails: %s", hist.c_str(), cb_err()); if (!same(q, i<0? d : m[i].second)) ex.fail("%s\n  \"default\" Get %s gives %s", hist.c_str(), show(k).c_str(), show(fromB(q)).c_str()); cb_dec(q);
    if (cb_c1(has, toB(k, r), &q)) ex.fail("%s\n  Has fails: %s", hist.c_str(), cb_err()); if (!same(q, Val((int)(i>=0)))) ex.fail("%s\n  Has %s gives %s", hist.c_str(), show(k).c_str(), show(fromB(q)).c_str()); cb_dec(q);
  }
  void lists(bool hold) { // Count, Keys, Values in insertion order
    vector<Val> k, v; for (auto& p : m) { k.push_back(p.first); v.push_back(p.second); } Val K = Val::vec(k), V = Val::vec(v); BV q; ex.op(3); ex.compared(3);
    if (cb_c1(cnt, cb_mknum(0), &q)) ex.fail("%s\n  Count fails: %s", hist.c_str(), cb_err()); if (!same(q, Val((double)m.size()))) ex.fail("%s\n  Count gives %s, expected %zu", hist.c_str(), show(fromB(q)).c_str(), m.size()); cb_dec(q);
    BV a, b; string why; if (cb_c1(keys, cb_mknum(0), &a) || cb_c1(vals, cb_mknum(0), &b)) ex.fail("%s\n  Keys or Values fails: %s", hist.c_str(), cb_err());
    if (!same(a, K)) ex.fail("%s\n  Keys gives %s\n  expected   %s", hist.c_str(), show(fromB(a)).c_str(), show(K).c_str()); if (!same(b, V)) ex.fail("%s\n  Values gives %s\n  expected     %s", hist.c_str(), show(fromB(b)).c_str(), show(V).c_str());
    if (!wellFormed(a, &why) || !wellFormed(b, &why)) ex.fail("%s\n  Keys or Values is malformed: %s", hist.c_str(), why.c_str());
    if (hold) { drop(); heldK = a; heldV = b; hk = K; hv = V; log(" (lists held)"); } else { cb_dec(a); cb_dec(b); }
  }
  void held() { if (!heldK) return; if (!same(heldK, hk) || !same(heldV, hv)) ex.fail("%s\n  changed earlier results of Keys and Values to %s and %s, they were %s and %s", hist.c_str(), show(fromB(heldK)).c_str(), show(fromB(heldV)).c_str(), show(hk).c_str(), show(hv).c_str()); }
  void drop() { if (heldK) { held(); cb_dec(heldK); cb_dec(heldV); heldK = 0; } }
  void done() { drop(); for (BV b : {set, del, get, has, cnt, keys, vals, ns}) cb_dec(b); }
  uint64_t st() { uint64_t h = 5; for (auto& p : m) h = mix(mix(h, hashV(p.first)), hashV(p.second)); return h; }
};
// number keys: with the test hash the number is its own 64-bit hash; the home slot is its top bits
static Val key(int home, int hi, int lo) { return Val((double)home*288230376151711744.0 + (double)hi*4294967296.0 + (double)lo*4096.0); }
static const vector<vector<Val>>& layouts() {
  static vector<vector<Val>> L = {
    {key(5,0,1), key(5,0,2), key(5,1,0), key(6,0,0), key(7,0,0)},      // one cluster, two equal upper halves
    {key(5,0,0), key(5,1,0), key(5,2,0), key(5,3,0), key(5,4,0)},      // all in one home
    {key(5,3,0), key(5,1,0), key(6,9,0), key(6,2,0), key(8,0,0)},      // two homes and a neighbour
    {key(0,0,1), key(0,0,2), key(1,0,0), key(63,0,0), key(62,5,0)},    // both ends of the table
    {key(63,1,0), key(63,2,0), key(63,3,0), key(62,0,0), key(62,4,0)}, // beyond the last home
    {key(9,0,3), key(9,0,1), key(9,0,2), key(9,0,4), key(9,0,5)}};     // equal upper halves only
  return L;
}
static void sequences(Ex& ex) { // every sequence of Set and Delete over 5 keys, everything looked up in the end state
  const auto& K = ex.of(layouts()); int n0 = ex.pick(4); int depth = ex.thorough? 6 : 4; Map t(ex); vector<Val> k0(K.begin(), K.begin()+n0), v0; for (int i = 0; i < n0; i++) v0.push_back(Val(100+i)); t.build(k0, v0);
  for (int d = 0; d < depth; d++) { int op = ex.pick(11); if (op==10) break; if (op<5) t.Set(K[op], Val(d)); else t.Delete(K[op-5]); }
  for (auto& k : K) t.look(k); t.look(key(5,0,3)); t.look(key(5,7,0)); t.look(key(63,9,9)); t.lists(false); ex.state(t.st()); ex.outcome(t.st()); t.done();
}
static void withLists(Ex& ex) { // the same with lists taken and held, and collections, in between
  const auto& K = layouts()[ex.pick(2)]; int depth = ex.thorough? 7 : 6; Map t(ex); int init = ex.pick(3); vector<Val> k0, v0; for (int i = 0; i < init; i++) { k0.push_back(K[i]); v0.push_back(i==1 && init==2? Val::str("b") : Val(5-i)); } t.build(k0, v0);
  for (int d = 0; d < depth; d++) { int op = ex.pick(6); if (op==0) t.Set(K[0], Val(d)); else if (op==1) t.Set(K[1], Val::vec({Val(d), Val::str("x")})); else if (op==2) { if (t.at(K[0])<0) { t.drop(); ex.outcome(t.st()); t.done(); return; } t.Delete(K[0]); } else if (op==3) { if (t.at(K[1])<0) { t.done(); return; } t.Delete(K[1]); } else if (op==4) t.lists(true); else { if (d) cb_gc(); else t.Set(K[2], Val::chr('c')); } t.held(); }
  t.lists(false); for (int i = 0; i < 3; i++) t.look(K[i]); ex.state(t.st()); ex.outcome(t.st()); t.done();
}
static Val manyKey(int p, int i) { switch (p) {
  case 0: return key(i%64, i/64, 0);         // spread
  case 1: return key(63, i*3%64, i);         // all at the last home
  case 2: return key(20+i%3, 0, i);          // three homes, equal upper halves in each
  case 3: return key(i*5%64, (i*7)%1000, i); // mixed
  case 4: return key((i*i)%7+57, i, 0);      // crowded near the end
  case 6: return key(63, (1<<26)-1-(i<<18), 0); // beyond the last home of the next sizes too
  default: return key(0, i, 0); } }
static void growth(Ex& ex) { // growing through the sizes of the table, deleting in patterns, growing again
  int p = ex.pick(7), order = ex.pick(3), dp = ex.pick(6); int n = ex.of(vector<int>{1, 16, 31, 32, 33, 34, 63, 64, 65, 66, 70, 100, 127, 128, 129, 200, 300}); int start = ex.pick(3); if (BAD && (p==1 || p==2 || p==5 || p==6) && n>100) return;
  Map t(ex); vector<int> ids; for (int i = 0; i < n; i++) ids.push_back(order==0? i : order==1? n-1-i : (i%2? i/2 : n-1-i/2));
  int pre = start==0? 0 : start==1? n/2 : n; vector<Val> k0, v0; for (int i = 0; i < pre; i++) { k0.push_back(manyKey(p, ids[i])); v0.push_back(Val(i)); } t.build(k0, v0);
  auto all = [&](int step) { for (int i = 0; i < n+3; i+= step) t.look(manyKey(p, i)); ex.tick(); };
  for (int i = pre; i < n; i++) t.Set(manyKey(p, ids[i]), Val(i)); all(1); t.lists(dp%2==0);
  vector<int> del; for (int i = 0; i < n; i++) { bool d = dp==0? i%2==0 : dp==1? i<n*3/4 : dp==2? i>=n/4 : dp==3? true : dp==4? i%10!=0 : (i*i)%7<4; if (d) del.push_back(dp==5? n-1-i : i); }
  int c = 0; for (int i : del) { t.Delete(manyKey(p, i)); if (++c%29==0) { all(7); t.lists(c%58==0); } }
  t.held(); all(1); t.lists(false);
  for (int i = 0; i < n; i+= 2) t.Set(manyKey(p, i), Val(1000+i)); t.held(); all(1); t.lists(true); for (int i = 1; i < n; i+= 3) t.Set(manyKey(p, i), Val::chr('x')); t.held(); all(1); t.lists(false); ex.state(t.st()); ex.outcome(t.st()); t.done();
}
static void churn(Ex& ex) { // a sliding window of live keys: compaction of the key list over and over
  int p = ex.pick(6), live = ex.of(vector<int>{1, 2, 5, 20, 31, 32, 33, 40, 60}), rounds = ex.of(vector<int>{40, 150, 400}), rd = ex.pick(3); if (BAD && (p==1 || p==2 || p==5) && rounds>150) return; Map t(ex); t.build({}, {});
  for (int i = 0; i < rounds; i++) { t.Set(manyKey(p, i), Val(i)); if (i>=live) t.Delete(manyKey(p, rd==0? i-live : rd==1? (i%2? i-live : i) : i)); if (i%37==0) { t.lists(i%74==0); for (int j = std::max(0, i-live-2); j <= i+1; j++) t.look(manyKey(p, j)); ex.tick(); } if (rd==1 && i%2==0 && t.at(manyKey(p, i-live))>=0) t.Delete(manyKey(p, i-live)); }
  t.lists(false); for (int j = 0; j < rounds; j++) t.look(manyKey(p, j)); ex.outcome(t.st()); t.done();
}
static vector<Val> ANY;
static void keysByValue(Ex& ex) { // keys of any kind, stored in any way, are found by value alone
  const Val& a = ex.of(ANY); const Val& b = ex.of(ANY); Map t(ex); auto ra = repsOf(a, 1); t.build({}, {}); t.Set(a, Val(1), ra[0]); t.Set(b, Val(2)); for (auto& r : ra) t.look(a, r); for (auto& r : repsOf(b, 1)) t.look(b, r); for (auto& c : ANY) t.look(c); t.lists(true); t.Delete(b, repsOf(b, 1).back()); for (auto& r : ra) t.look(a, r); t.look(b); t.lists(false); t.Set(a, Val(7), ra.back()); t.lists(false); t.done(); ex.tick();
}
static void building(Ex& ex) { // building from lists: all representations, duplicates, arguments that do not fit; the lists stay as they were
  int n = ex.pick(5); vector<Val> k, v; for (int i = 0; i < n; i++) { k.push_back(ANY[ex.pick(5)*3]); v.push_back(i==0 && n>1? Val::str("v") : Val(9-i)); } bool dup = false; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (matchV(k[i], k[j])) dup = true; Val K = Val::vec(k), V = Val::vec(v);
  for (auto& rk : repsOf(K, 1)) for (auto& rv : repsOf(V, 1)) {
    BV a = toB(K, rk), b = toB(V, rv), r; cb_inc(a); cb_inc(b); int rc = cb_c2(fnOf("•HashMap"), a, b, &r); ex.op();
    if (dup) { if (!rc) ex.fail("%s •HashMap %s accepts a duplicate key", show(K).c_str(), show(V).c_str()); }
    else { if (rc) ex.fail("%s •HashMap %s fails: %s", show(K).c_str(), show(V).c_str(), cb_err()); Map t(ex); t.hist = show(K)+" •HashMap "+show(V); t.take(r); for (int i = 0; i < n; i++) t.m.push_back({k[i], v[i]}); for (auto& c : ANY) t.look(c); t.lists(false); for (int i = 0; i < n; i++) t.Set(k[i], Val(20-i*(i%2?1:-1))); t.Set(Val::str("new"), Val(3)); if (n) t.Delete(k[0]); t.lists(false); t.done(); }
    unchanged(ex, "building a map from "+show(K), a, K, "𝕨"); unchanged(ex, "building a map with values "+show(V), b, V, "𝕩"); cb_dec(a); cb_dec(b);
    if (!dup) { Map t(ex); t.build(k, v, rk.shared? Rep{} : rk, rv.shared? Rep{} : rv); t.lists(false); for (int i = n; i--;) t.Set(k[i], Val(i*(i%2? -3 : 4))); t.lists(true); if (n>1) t.Delete(k[1]); t.lists(false); t.done(); }
    ex.tick();
  }
  for (auto& w : vector<Val>{Val(3), Val::arr({1,2}, {1,2}), Val::vec({1}), unitOf(Val(1))}) for (auto& x : vector<Val>{Val(3), Val::arr({2,1}, {1,2}), Val::vec({1,2}), Val::vec({})}) call2(ex, "•HashMap", fnOf("•HashMap"), w, {}, x, {}, Outcome{.err=true});
}
static void flagged(Ex& ex) { // maps over lists whose order is cached, then changed
  int n = 2+ex.pick(3); int up = ex.pick(2), op = ex.pick(4), kind = ex.pick(2); vector<Val> k, v; for (int i = 0; i < n; i++) { k.push_back(Val(up? i : n-i)); v.push_back(kind? Val::str(up? (i==0? "a" : "zz") : (i==0? "zz" : "a")) : Val(up? i : -i)); } Val K = Val::vec(k), V = Val::vec(v);
  for (auto& rk : repsOf(K, 2)) for (auto& rv : repsOf(V, 2)) { if (rk.shared || rv.shared) continue; BV a = toB(K, rk), b = toB(V, rv), r; if (kind) { if (cb_c1(fnOf(up? "∧" : "∨"), b, &b)) ex.fail("sort: %s", cb_err()); } BV sq; if (!cb_c1(fnOf("•Hash"), cb_inc(b), &sq)) cb_dec(sq); if (cb_c2(fnOf("•HashMap"), a, b, &r)) ex.fail("%s", cb_err()); Map t(ex); t.hist = show(K)+" •HashMap "+show(V); t.take(r); for (int i = 0; i < n; i++) t.m.push_back({k[i], v[i]});
    if (op==0) t.Set(k[0], Val(500)); else if (op==1) { t.Delete(k[1]); t.Set(k[1], Val(-5)); } else if (op==2) { for (int i = 0; i < n; i++) t.Set(k[i], Val(i*(i&1? -1 : 1))); } else { t.Set(Val(-9), Val(9)); t.Delete(k[0]); }
    t.lists(false); BV q; vector<Val> cur; for (auto& p : t.m) cur.push_back(p.second); Val C = Val::vec(cur); for (auto g : {"∧", "⍋", "∨"}) { if (cb_c1(t.vals, cb_mknum(0), &q)) ex.fail("%s", cb_err()); BV s; int rc = cb_c1(fnOf(g), q, &s); judge(ex, t.hist+" ⋄ "+g+" Values", rc, s, outcomeOf([&]() { return p1(g, C); })); }
    t.done(); ex.tick(); }
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C19"; c.useStates = false;
  c.assumptions = {"the first build replaces the hash function by the code base's own TEST_BAD_HASH, under which numbers hash to themselves, to lay out collisions; the second uses the real hash with one fixed seed", "NaN keys are not explored"};
  c.init = []() {
    cb_init(); for (auto g : {"•HashMap", "•Hash", "∧", "∨", "⍋"}) fnOf(g);
    ANY = {Val(0), Val(1), Val(-1), Val(0.5), Val(300), Val::chr('a'), Val::chr(1), Val::chr(0x10000), Val::vec({}), Val::vec({Val(1)}), Val::vec({1, 0}), numsV({1, 300}), Val::str("a"), Val::str("ab"), Val::str("→"), unitOf(Val(1)), Val::arr({1,1}, {Val(1)}), Val::vec({Val::str("a"), Val(1)}), Val::vec({Val::vec({1, 0})}), Val::arr({0,2}, {}), Val(1e300), Val((double)INFINITY)};
  };
  c.perRun = gcEvery(400); c.after = sharedIntact;
  c.sc = {{"sequences", 3, sequences, 3, "6 layouts of 5 keys × 4 starting maps × every sequence of up to 4 (6) of 10 operations, everything looked up"},
          {"with-lists", 3, withLists, 3, "every sequence of up to 6 (7) of Set, Delete, taking and holding Keys and Values, collecting"},
          {"growth", 2, growth, 3, "17 sizes up to 300 × 7 key layouts × 3 insertion orders × 6 deletion patterns × 3 ways to start"},
          {"churn", 2, churn, 3, "sliding windows of 1–60 live keys over up to 400 insertions"},
          {"flagged", 3, flagged, 3, "maps over sorted lists, changed in 4 ways"}};
  if (!BAD) { c.sc.push_back({"keys-by-value", 2, keysByValue, 3, "every pair of 22 keys of all kinds × representations"}); c.sc.push_back({"building", 3, building, 3, "every list of up to 4 of 5 keys × representations"}); }
  return mainMC(argc, argv, c);
}
