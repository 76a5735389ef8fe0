// Running out of memory: whatever allocation fails, what existed before is as it was, and everything goes on working.
#include "vm.hpp"
#define main hashMapMain
#include "C19.cpp"
#undef main
using namespace bq::vm;
static void gone() { cb_gctop(); }
// maps: each allocation of one operation fails; the map must be the one from before, or the one from after, and go on
static void maps(Ex& ex) {
  int p = ex.pick(4); int n = ex.of(vector<int>{0, 1, 2, 3, 7, 15, 16, 31, 32, 33, 48, 63, 64, 65, 128}), del = ex.pick(3), op = ex.pick(8);
  for (int at = 0; at < 60; at++) {
    Map t(ex); t.build({}, {}); for (int i = 0; i < n; i++) t.Set(manyKey(p, i), i%3? Val(i) : Val::str("v")); if (del) for (int i = 0; i < n; i+= del==1? 2 : 1) if (del==1 || i>n/4) t.Delete(manyKey(p, i));
    BV held = 0; Val heldV; if (op==5 || op==6) { if (cb_c1(op==5? t.keys : t.vals, cb_mknum(0), &held)) ex.fail("%s: %s", t.hist.c_str(), cb_err()); heldV = fromB(held); }
    auto before = t.m; Val k = manyKey(p, op==0 || op==5? n+1 : op==7? 0 : n/2), v = Val::vec({Val(7), Val::str("new")}); int i = t.at(k); BV r; int rc = 0; string what;
    if (op<=1 || op==5 || op==6) { rc = cb_try(2, t.set, toB(k), toB(v), at, 0, &r); what = show(k)+" Set "+show(v); }
    else if (op==2 || op==7) { rc = cb_try(1, t.del, 0, toB(k), at, 0, &r); what = "Delete "+show(k); }
    else if (op==3) { rc = cb_try(1, t.keys, 0, cb_mknum(0), at, 0, &r); what = "Keys"; } else if (op==4) { rc = cb_try(1, t.vals, 0, cb_mknum(0), at, 0, &r); what = "Values"; }
    t.hist+= strf(" ⋄ %s with allocation %d failing", what.c_str(), at); ex.op(); bool failed = !(rc&2); if (rc&2) cb_dec(r); if (rc&1) mc::count(62);
    auto after = before; if (op<=1 || op==5 || op==6) { if (i<0) after.push_back({k, v}); else after[i].second = v; } else if (op==2 || op==7) { if (i>=0) after.erase(after.begin()+i); }
    if (!(rc&1) && failed && !((op==2 || op==7) && i<0)) ex.fail("%s\n  fails: %s", t.hist.c_str(), cb_err());
    if (failed) gone(); // what the failed operation left half done
    // which of the two it is shows in its size or in the value
    if (failed) { BV c; if (cb_c1(t.get, toB(k), &c)) { t.m = i<0? before : after; } else { t.m = same(c, v) && i<0? after : same(c, v) && op!=2? after : before; cb_dec(c); } } else t.m = after;
    t.lists(true); for (int j = 0; j < n+2; j++) t.look(manyKey(p, j)); if (held) { if (!same(held, heldV)) ex.fail("%s\n  changed an earlier result", t.hist.c_str()); cb_dec(held); }
    t.Set(manyKey(p, n+3), Val(3)); t.Set(k, Val(4)); t.look(k); if (n) t.Delete(manyKey(p, n+3)); t.lists(false); for (int j = 0; j < n+4; j+= 3) t.look(manyKey(p, j)); ex.state(mix(t.st(), op*100+at)); t.done(); ex.tick();
    if (!(rc&1)) break;
  }
}
// evaluating source text: each allocation fails
static const vector<string>& sources() { static vector<string> S = {
  "1", "1+1", "⟨1,2,⟨3,\"four\"⟩⟩", "\"str\"", "'c'", "+", "+´", "+´⟨1,2,3⟩", "a←5⋄a×a", "a←⟨1,2⟩⋄a↩a∾3⋄a", "{𝕩+1}", "{𝕩+1} 5", "{𝕨∾𝕩}", "3{𝕨∾𝕩}4", "{a←𝕩⋄b←a∾a⋄⌽b}", "{𝕩+1}¨⟨1,2,3⟩", "+⟜1∘-", "(+´÷≠)⟨1,2,3⟩",
  "f←{𝕩×2}⋄f f 3", "a⇐5", "m←{a⇐𝕩} 5", "⟨a,b⟩←⟨1,2⟩⋄a-b", "[1,2]", "[\"ab\",\"cd\"]", "1+", "(", "{", "\"abc", "'", "⟨1,2", "undefined", "1 2", "a←1⋄a←2", "!0", "\"message\"!0", "0⊑⟨⟩", "1+'a'+'b'", "•Fmt 5", "•Repr ⟨1,\"a\"⟩", "•BQN \"1+1\"", "⟨1⟩•HashMap⟨2⟩", "•Hash \"abc\"", "1_000", "⊢1e5", "¯5", "π", "∞", "@", "\"a\"\"b\"", "a.b", "⟨⟩", "# comment", "1 # comment", "1⋄2⋄3", "_m←´⋄+_m⟨1,2⟩",
  "•UTF8 \"é\"", "•ToUTF8 \"aé\"", "•FromUTF8 @+⟨97,195,169⟩", "•ParseFloat \"1.5\"", "{𝕩 •bit._cast ⟨1,2⟩}", "⟨2,2⟩⥊↕4", "•Glyph +", "•Decompose +´", "•Source {𝕩}", "•Type 5", "•Cmp", "•rand.Range 5", "(•MakeRand 1).Range 0", "(•MakeRand 1).Deal 5", "5 (•MakeRand 1).Subset 10", "{𝕊𝕩}⎊3 1", "•CurrentError 0", "!⎊{𝕩} 0", "•math.Sin 1", "•term.ErrRaw", "•primInd +", "•Out", "⊔⟨0,1,0⟩", "⍷⟨1,2,1⟩", "∧⟨3,1,2⟩", "⍋\"hello\"", "5↑⟨1⟩", "¬⟨0,1⟩", "<5", ">⟨⟨1,2⟩,⟨3,4⟩⟩", "⍉⟨2,2⟩⥊↕4"};
  return S; }
struct Probe { string src; BV v; };
static void evalsFail(Ex& ex) {
  const string& s = ex.of(sources()); static vector<std::pair<string, Val>> sane = {{"(+´÷≠)⟨1,2,3⟩", Val(2)}, {"∾˜¨⟨⟨1⟩,\"ab\"⟩", Val::vec({Val::vec({Val(1), Val(1)}), Val::str("abab")})}, {"a←3⋄a↩a+4⋄a", Val(7)}};
  static vector<std::pair<BV, Val>> held; if (held.empty()) for (auto& q : sane) { BV r; if (cb_eval(q.first.c_str(), &r)) ex.fail("%s: %s", q.first.c_str(), cb_err()); held.push_back({r, q.second}); }
  BV ref = 0; int rc0 = cb_eval(s.c_str(), &ref); string e0 = rc0? cb_err() : ""; Val v0 = rc0 || cb_kind(ref)>CK_ARR? Val(0) : fromB(ref); bool plain = !rc0 && cb_kind(ref)<=CK_ARR && s.find("rand")==string::npos && s.find("MakeRand")==string::npos; // (a generator is not a fixed value)
  for (int at = 0; at < 2000; at++) {
    BV r; int rc = cb_try(7, (BV)s.c_str(), 0, 0, ex.thorough? at : -1, 77, &r); ex.op(); if (rc&1) mc::count(62);
    if (rc&2) { if (plain && !(rc&1) && !same(r, v0)) ex.fail("%s\n  gives %s after allocations failed in it, before %s", s.c_str(), show(fromB(r)).c_str(), show(v0).c_str()); cb_dec(r); } else if (!(rc&1) && !rc0) ex.fail("%s\n  fails after allocations failed in it: %s", s.c_str(), cb_err());
    if (!(rc&1)) break;
    gone(); for (auto& q : held) if (!same(q.first, q.second)) ex.fail("%s with allocation %d failing\n  changed an earlier result to %s", s.c_str(), at, show(fromB(q.first)).c_str());
    if (at%8==0) { auto& q = sane[at/8%3]; BV r2; if (cb_eval(q.first.c_str(), &r2)) ex.fail("%s with allocation %d failing\n  makes %s fail: %s", s.c_str(), at, q.first.c_str(), cb_err()); if (!same(r2, q.second)) ex.fail("%s with allocation %d failing\n  makes %s give %s", s.c_str(), at, q.first.c_str(), show(fromB(r2)).c_str()); cb_dec(r2); }
    ex.state(mix(hashS(s), at)); ex.tick();
  }
  BV again = 0; int rc1 = cb_eval(s.c_str(), &again); if (rc1!=rc0 || (rc0 && e0!=cb_err())) ex.fail("%s\n  first %s, after allocations failed in it %s", s.c_str(), rc0? e0.c_str() : "works", rc1? cb_err() : "works"); if (plain && !same(again, v0)) ex.fail("%s\n  gives %s after allocations failed in it, before %s", s.c_str(), show(fromB(again)).c_str(), show(v0).c_str()); if (!rc0) cb_dec(ref); if (!rc1) cb_dec(again);
}
// deriving functions
static void deriving(Ex& ex) {
  int what = 3+ex.pick(4); const char* m1 = ex.of(vector<const char*>{"¨", "´", "˜", "˙", "⌜", "˘", "⁼"}); const char* m2 = ex.of(vector<const char*>{"∘", "⊸", "⌾", "⎉", "⍟"}); static vector<const char*> ops = {"+", "⟨1,\"two\"⟩", "5", "{𝕩∾𝕩}"}; const char* f = ex.of(ops); const char* g = what==3? "+" : ex.of(ops);
  for (int at = 0; at < 10; at++) {
    BV r, ff = cb_inc(fnOf(f)), gg = cb_inc(fnOf(g)); int rc;
    if (what==3) { cb_dec(gg); rc = cb_try(3, fnOf(m1), ff, 0, at, 0, &r); } else if (what==4) rc = cb_try(4, fnOf(m2), ff, gg, at, 0, &r); else if (what==5) rc = cb_try(5, cb_inc(fnOf("⋈")), ff, gg, at, 0, &r); else rc = cb_try(6, 0, ff, gg, at, 0, &r);
    ex.op(); if (rc&1) mc::count(62); if (rc&2) { if (at && cb_kind(r)!=CK_FUN) ex.fail("deriving gives no function"); cb_dec(r); } if (!(rc&1)) { if (!(rc&2)) ex.fail("deriving fails: %s", cb_err()); break; } gone();
    for (const char* q : {"⟨1,\"two\"⟩"}) if (!same(fnOf(q), Val::vec({Val(1), Val::str("two")}))) ex.fail("a failed derivation changed its operand"); BV z; if (cb_c1(fnOf("{𝕩∾𝕩}"), cb_mknum(3), &z)) ex.fail("after a failed derivation the operand fails: %s", cb_err()); cb_dec(z); ex.state(what*1000+at);
  }
}
// the heap limit: never exceeded, and running into it is an error like any other
static void limit(Ex& ex) {
  static const int MB = 1<<20; int lim = ex.of(vector<int>{1, 4, 20}), kind = ex.pick(8), hold = ex.pick(3); uint64_t max0 = cb_heapmax(), base = cb_heap_alloc(), lim_ = base+(uint64_t)lim*MB; static const char* FN[] = {"↕", "10⊸⥊", "{𝕩∾1÷2}", "{⌽𝕩}", "{a←𝕩⋄a↩a∾𝕩⋄a}", "{⟨𝕩,𝕩⟩∾<𝕩}", "(⊢∾⊢)", "{(↕𝕩)⊏↕𝕩}"};
  vector<std::pair<BV, Val>> keep; for (int i = 0; i < hold; i++) { Val v = famArr(i? FAM_NEST : FAM_F64, {200}, 1000, 5+i); keep.push_back({toB(v), v}); }
  cb_set_heapmax(lim_); bool hit = false, worked = false; string last; BV f = fnOf(kind==0 || kind==7? FN[kind] : FN[kind]);
  struct Back { uint64_t m; ~Back() { cb_set_heapmax(m); } } back{max0};
  auto within = [&](const char* when) { if (cb_heap_alloc()>lim_) ex.fail("with the heap limited to %lu bytes, %lu are allocated %s (%s)", (unsigned long)lim_, (unsigned long)cb_heap_alloc(), when, FN[kind]); };
  BV x = cb_mknum(64);
  if (kind!=0 && kind!=7) { BV r; if (cb_c1(fnOf("↕"), x, &r)) ex.fail("↕64: %s", cb_err()); x = r; }
  for (int step = 0; step < 26; step++) { BV r; int rc;
    if (kind==0 || kind==7) rc = cb_c1(f, cb_mknum((double)(64l<<step)), &r); else { if (kind==1) { rc = cb_c2(fnOf("⥊"), cb_mknum((double)(64l<<step)), cb_inc(x), &r); } else if (kind==2 || kind==3) { BV y; rc = cb_c2(fnOf("⥊"), cb_mknum((double)(64l<<step)), cb_inc(x), &y); if (!rc) rc = cb_c1(f, y, &r); } else rc = cb_c1(f, cb_inc(x), &r); }
    ex.op(); within("after a call"); if (rc) { if (strcmp(cb_err(), "Out of memory")) ex.fail("%s at the heap limit gives the error \"%s\"", FN[kind], cb_err()); hit = true; break; }
    worked = true; if (kind>=4 && kind<7) { cb_dec(x); x = r; } else cb_dec(r); ex.tick();
  }
  if (!hit) ex.fail("%s grew past the heap limit without an error", FN[kind]); if (!worked) ex.fail("%s fails at once under a heap limit of %d MB more", FN[kind], lim);
  if (kind!=0 && kind!=7 && (cb_kind(x)!=CK_ARR || cb_ia(x)<(kind==5? 3 : 64) || cb_kind(cb_item(x, kind==5? 2 : 63))==CK_OTHER)) ex.fail("%s at the heap limit destroyed its argument", FN[kind]); if (kind && kind!=7) cb_dec(x);
  gone(); within("after a collection");
  for (auto& k : keep) if (!same(k.first, k.second)) ex.fail("%s at the heap limit changed an unrelated value", FN[kind]);
  { BV r; for (int i = 0; i < 50; i++) { if (cb_c1(fnOf("↕"), cb_mknum(1000+i), &r)) ex.fail("after %s ran into the heap limit, ↕%d fails: %s", FN[kind], 1000+i, cb_err()); cb_dec(r); } if (cb_eval("(+´÷≠)⟨1,2,3⟩", &r)) ex.fail("after %s ran into the heap limit, evaluation fails: %s", FN[kind], cb_err()); cb_dec(r); within("at the end"); }
  for (auto& k : keep) cb_dec(k.first); ex.state(lim*100+kind*10+hold);
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C16"; c.useStates = true;
  c.assumptions = {"a failing allocation is one whose request the allocator refuses (the code's own out-of-memory path); the operating system refusing a mapping takes the same path"};
  c.init = []() {
    fault_off = 1; cb_init(); for (auto g : {"•HashMap", "•Hash", "∧", "∨", "⍋", "↕", "⥊", "⋈", "¨", "´", "˜", "˙", "⌜", "˘", "⁼", "∘", "⊸", "⌾", "⎉", "⍟", "+", "⟨1,\"two\"⟩", "5", "{𝕩∾𝕩}", "10⊸⥊", "{𝕩∾1÷2}", "{⌽𝕩}", "{a←𝕩⋄a↩a∾𝕩⋄a}", "{⟨𝕩,𝕩⟩∾<𝕩}", "(⊢∾⊢)", "{(↕𝕩)⊏↕𝕩}"}) fnOf(g);
  };
  c.perRun = gcEvery(100);
  c.sc = {{"maps", 4, maps, 3, "4 key layouts × 15 sizes × 3 deletion patterns × 8 operations × each of their allocations failing"},
          {"evaluations", 1, evalsFail, 3, "80 programs × every kind of allocation (every single allocation) failing while they are compiled and run"},
          {"deriving", 3, deriving, 3, "modifiers and trains × operands × each allocation failing"},
          {"limit", 3, limit, 3, "3 heap limits × 8 growing computations × 3 sets of values kept"}};
  return mainMC(argc, argv, c);
}
