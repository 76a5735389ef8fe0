// Text: UTF-8 encoding and decoding, printing and reading lines.
#include "gen.hpp"
using namespace bq;
static void put(string& s, uint32_t c) { if (c<0x80) s+= (char)c; else if (c<0x800) { s+= (char)(0xc0|c>>6); s+= (char)(0x80|(c&63)); } else if (c<0x10000) { s+= (char)(0xe0|c>>12); s+= (char)(0x80|(c>>6&63)); s+= (char)(0x80|(c&63)); } else { s+= (char)(0xf0|c>>18); s+= (char)(0x80|(c>>12&63)); s+= (char)(0x80|(c>>6&63)); s+= (char)(0x80|(c&63)); } }
static string utf8(const Val& v) { string s; for (auto& e : v.it()) put(s, e.c); return s; }
static Val chars(const string& s) { vector<Val> v; for (unsigned char c : s) v.push_back(Val::chr(c)); return Val::vec(v); }
// 0: valid, 1: surely an error (bad first byte, or cut short), 2: not checked by the implementation
static int decode(const string& s, Val* r) {
  vector<Val> v; size_t i = 0; int st = 0; while (i<s.size()) { unsigned c = (unsigned char)s[i]; int l = c<0x80? 1 : c>>5==6? 2 : c>>4==14? 3 : c>>3==30? 4 : 0; if (!l || i+l>s.size()) return 1; uint32_t u = l==1? c : c&(0x7f>>l); for (int k = 1; k < l; k++) { unsigned d = (unsigned char)s[i+k]; if (d>>6!=2) st = 2; u = u<<6|(d&63); } static const uint32_t min[] = {0, 0, 0x80, 0x800, 0x10000}; if (u<min[l] || u>0x10ffff || (u>=0xd800 && u<0xe000)) st = 2; v.push_back(Val::chr(u)); i+= l; }
  *r = Val::vec(v); return st;
}
static Outcome good(const Val& v) { Outcome o; o.v = v; return o; } static Outcome bad() { Outcome o; o.err = true; return o; }
static void both(Ex& ex, const Val& t, int level) { // •ToUTF8 and back
  Val b = chars(utf8(t)); all1(ex, "•ToUTF8", fnOf("•ToUTF8"), t, good(b), level); all1(ex, "•FromUTF8", fnOf("•FromUTF8"), b, good(t), level); vector<Val> n; for (auto& e : b.it()) n.push_back(Val((double)e.c)); all1(ex, "•FromUTF8", fnOf("•FromUTF8"), Val::vec(n), good(t), level); for (auto& e : n) if (e.n>=128) e = Val(e.n-256); all1(ex, "•FromUTF8", fnOf("•FromUTF8"), Val::vec(n), good(t), level);
}
static void characters(Ex& ex) { // every character alone, between others and at the end
  int blk = ex.pick(544); BV to = fnOf("•ToUTF8"), from = fnOf("•FromUTF8");
  for (int k = 0; k < 2048; k++) { uint32_t c = blk*2048+k; if (c>=0x110000) return; Val t = Val::vec({Val::chr(c)}), u = Val::vec({Val::chr('a'), Val::chr(c), Val::chr(0xe9), Val::chr(c), Val::chr(0x1d530)}); for (auto& v : {t, u}) { Val b = chars(utf8(v)); if (k%64<2) { both(ex, v, 2); continue; } BV r; int rc; rc = cb_c1(to, toB(v), &r); ex.op(2); ex.compared(2); if (rc || !same(r, b)) ex.fail("•ToUTF8 %s gives %s, expected %s", show(v).c_str(), showRes(rc, r).c_str(), show(b).c_str()); cb_dec(r); rc = cb_c1(from, toB(b), &r); if (rc || !same(r, v)) ex.fail("•FromUTF8 %s gives %s, expected %s", show(b).c_str(), showRes(rc, r).c_str(), show(v).c_str()); cb_dec(r); } if (k%256==0) ex.tick(); }
}
static void bytes(Ex& ex) { // every byte string of up to three bytes, and of four of 24
  int a = ex.pick(257); BV from = fnOf("•FromUTF8"); static const vector<int> some = {0, 9, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xc3, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf7, 0xf8, 0xff};
  auto one = [&](const string& s) { Val e; int st = decode(s, &e); BV r; int rc = cb_c1(from, toB(chars(s)), &r); ex.op(); ex.compared(); if (st==2) { if (!rc) cb_dec(r); return; } if (st==1? !rc : (rc || !same(r, e))) ex.fail("•FromUTF8 %s gives %s, expected %s", show(chars(s)).c_str(), showRes(rc, r).c_str(), st? "an error" : show(e).c_str()); if (!rc) cb_dec(r); };
  if (a==256) { one(""); return; } string s(1, a); one(s); for (int b = 0; b < 256; b++) { string t = s+(char)b; one(t); for (int c = 0; c < 256; c++) { if (!ex.thorough && !std::count(some.begin(), some.end(), c) && c%7) continue; one(t+(char)c); } if (b%16==0) { ex.tick(); } if (std::count(some.begin(), some.end(), a) && std::count(some.begin(), some.end(), b)) for (int c : some) for (int d : some) { one(t+(char)c+(char)d); if (a>=0xf0) { one(t+(char)c+(char)d+"x"); one("\xc3\xa9"+t+(char)c+(char)d); } } }
}
static void strings(Ex& ex) { // every short string of characters of all widths, and long ones, in all representations; what is no text is an error
  static const vector<uint32_t> A = {0, 'a', 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff};
  int kind = ex.pick(3); if (kind==0) { int n = ex.pick(ex.thorough? 6 : 5); vector<Val> v; for (int k = 0; k < n; k++) v.push_back(Val::chr(ex.of(A))); both(ex, Val::vec(v), n<4? 2 : 1); ex.outcome(hashV(Val::vec(v))); return; }
  if (kind==1) { int n = ex.of(vector<int>{15, 16, 17, 31, 33, 63, 64, 65, 127, 257, 1000, 5000}), at = ex.pick(4); uint32_t c = ex.of(A), d = ex.of(A); vector<Val> v(n, Val::chr(c)); v[at==0? 0 : at==1? n/2 : at==2? n-2 : n-1] = Val::chr(d); both(ex, Val::vec(v), 2); return; }
  vector<Val> odd = {Val(1), Val::chr('a'), Val::vec({Val(1), Val::chr('a')}), Val::vec({Val::str("a"), Val::chr('b')}), Val::vec({Val::chr('a'), Val(0.5)}), Val::arr({1, 2}, {Val::chr('a'), Val::chr('b')}), Val::arr({}, {Val::chr('a')}), Val::vec({Val(256)}), Val::vec({Val(-129)}), Val::vec({Val(1.5)}), Val::vec({Val::chr(256)}), Val::vec({Val(NAN)}), Val::vec({Val(1e10)})};
  Val v = odd[ex.pick(odd.size())]; bool num = v.isArr() && v.rank()==1 && v.it()[0].isNum(); for (auto f : {"•ToUTF8", "•FromUTF8"}) { if (f==string("•FromUTF8") && v.isArr() && v.rank()==1 && v.ia()==2 && num && v.it()[0].n==1) continue; if (f==string("•ToUTF8") && v.isArr() && v.rank()==1 && v.ia()==1 && v.it()[0].isChr()) continue; all1(ex, f, fnOf(f), v, bad(), 2); }
}
// --- standard output and input
static string printed(Ex& ex, const std::function<void()>& f) { fflush(stdout); static int fd = -1; if (fd<0) fd = memfd_create("out", 0); ftruncate(fd, 0); lseek(fd, 0, SEEK_SET); int old = dup(1); dup2(fd, 1); try { f(); } catch (...) { fflush(stdout); dup2(old, 1); close(old); throw; } fflush(stdout); dup2(old, 1); close(old); off_t n = lseek(fd, 0, SEEK_END); string s(n, 0); if (n && pread(fd, &s[0], n, 0)!=n) ex.fail("internal: pread"); return s; }
static void output(Ex& ex) { // •Out prints the text and a newline
  static const vector<uint32_t> A = {0, 'a', '%', 0xe9, 0x1234, 0x1d530, '\n'}; Val t; int kind = ex.pick(2); if (kind==0) { int n = ex.pick(5); vector<Val> v; for (int k = 0; k < n; k++) v.push_back(Val::chr(ex.of(A))); t = Val::vec(v); } else { int n = ex.of(vector<int>{1022, 1023, 1024, 1025, 2047, 2048, 2049, 4097}); uint32_t c = ex.of(A), d = ex.of(A); vector<Val> v(n, Val::chr(c)); v[ex.pick(2)? n-1 : 1023%n] = Val::chr(d); t = Val::vec(v); }
  for (auto& rp : repsOf(t, 2)) { BV r = 0; int rc = 0; string s = printed(ex, [&]() { rc = cb_c1(fnOf("•Out"), toB(t, rp), &r); }); ex.op(); ex.compared(); if (rc || s!=utf8(t)+"\n") ex.fail("•Out %s (stored as %s) prints %s", show(t).c_str(), rp.str().c_str(), rc? cb_err() : show(chars(s)).c_str()); if (!same(r, t)) ex.fail("•Out %s gives %s", show(t).c_str(), show(fromB(r)).c_str()); cb_dec(r); }
  sharedIntact(ex); ex.outcome(hashV(t));
}
static void lines(Ex& ex) { // •GetLine: line after line to the end
  static const vector<string> A = {"a", "\n", "\r", "é", "𝔽"}; string s; int kind = ex.pick(2); if (kind==0) { int n = ex.pick(ex.thorough? 8 : 6); for (int k = 0; k < n; k++) s+= ex.of(A); } else { int n = ex.of(vector<int>{100, 119, 120, 121, 4095, 4096, 4097, 70000}); s = string(n, 'x')+ex.of(vector<string>{"", "\n", "\r\n", "é", "\né\n\n"}); }
  fflush(stdin); int fd = memfd_create("in", 0); if (write(fd, s.data(), s.size())!=(ssize_t)s.size()) ex.fail("internal: write"); lseek(fd, 0, SEEK_SET); dup2(fd, 0); close(fd); clearerr(stdin); setvbuf(stdin, nullptr, _IOFBF, 4096); fseek(stdin, 0, SEEK_SET);
  vector<string> want; size_t p = 0; while (p<s.size()) { size_t q = s.find('\n', p); string l = s.substr(p, q==string::npos? q : q-p); if (l.size() && l.back()=='\r') l.pop_back(); want.push_back(l); if (q==string::npos) break; p = q+1; }
  for (size_t k = 0; k < want.size()+2; k++) { BV r; int rc = cb_c1(fnOf("•GetLine"), toB(Val(0)), &r); Val e; if (k<want.size()) decode(want[k], &e); else e = Val::chr(0); ex.op(); ex.compared(); if (rc || !same(r, e)) ex.fail("•GetLine number %d of the input %s gives %s, expected %s", (int)k, show(chars(s)).c_str(), showRes(rc, r).c_str(), show(e).c_str()); cb_dec(r); }
  ex.outcome(hashS(s));
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C23"; c.assumptions = {"continuation bytes, overlong forms and surrogates are not validated by design"};
  c.init = []() { cb_init(); for (auto f : {"•ToUTF8", "•FromUTF8", "•Out", "•GetLine"}) fnOf(f); cb_gc(); };
  c.perRun = gcEvery(64);
  c.sc = {{"characters", 1, characters, 3, "every character of 0–10FFFF alone and among others, in both directions"},
          {"bytes", 1, bytes, 3, "every string of up to two bytes, of three (a third byte in 55 values; all), and of four and five from 24"},
          {"strings", 3, strings, 3, "every string of up to 4 (5) of 11 characters, long ones with one different character, in all representations, as characters and numbers; 13 values that are no text"},
          {"output", 3, output, 3, "every text of up to 4 of 7 characters and around the buffer size, in all representations"},
          {"lines", 3, lines, 3, "every input of up to 5 (7) of 5 characters and long lines"}};
  return mainMC(argc, argv, c);
}
