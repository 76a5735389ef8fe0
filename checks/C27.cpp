// Files: what reading and writing say is what happened, whatever step of it fails; file operations against a model tree; path functions.
#include "gen.hpp"
#include <dirent.h>
#include <filesystem>
namespace fs = std::filesystem;
using namespace bq;
static void put(string& s, uint32_t c) { if (c<0x80) s+= (char)c; else if (c<0x800) { s+= (char)(0xc0|c>>6); s+= (char)(0x80|(c&63)); } else if (c<0x10000) { s+= (char)(0xe0|c>>12); s+= (char)(0x80|(c>>6&63)); s+= (char)(0x80|(c&63)); } else { s+= (char)(0xf0|c>>18); s+= (char)(0x80|(c>>12&63)); s+= (char)(0x80|(c>>6&63)); s+= (char)(0x80|(c&63)); } }
static Val bytesOf(const string& s) { vector<Val> v; for (unsigned char c : s) v.push_back(Val::chr(c)); return Val::vec(v); }
static bool textOf(const string& s, Val* r) { vector<Val> v; for (size_t i = 0; i < s.size();) { unsigned c = (unsigned char)s[i]; int l = c<0x80? 1 : c>>5==6? 2 : c>>4==14? 3 : c>>3==30? 4 : 0; if (!l || i+l>s.size()) return false; uint32_t u = l==1? c : c&(0x7f>>l); for (int k = 1; k < l; k++) u = u<<6|((unsigned char)s[i+k]&63); v.push_back(Val::chr(u)); i+= l; } *r = Val::vec(v); return true; }
static bool linesOf(const string& s, Val* r) { vector<Val> v; size_t p = 0; while (p<s.size()) { size_t q = s.find_first_of("\r\n", p); if (q==string::npos) q = s.size(); Val l; if (!textOf(s.substr(p, q-p), &l)) return false; v.push_back(l); p = q<s.size() && s[q]=='\r' && q+1<s.size() && s[q+1]=='\n'? q+2 : q+1; } *r = Val::vec(v); return true; }
static BV fileF(const char* n) { static std::map<string, BV> m; auto it = m.find(n); if (it!=m.end()) return it->second; BV r; if (cb_field(fnOf("•file"), n, &r)) { fprintf(stderr, "no •file.%s\n", n); _exit(4); } return m[n] = r; }
static int fds() { int n = 0; for (int i = 0; i < 64; i++) n+= fcntl(i, F_GETFD)>=0; return n; }
static Val T(const string& s) { Val v; if (!textOf(s, &v)) abort(); return v; }
// --- a file whose every step may fail
struct Virt { string data, disk; size_t pos = 0; bool seekable = true, lies = false, gone = false, fault = false; int open = 0, opened = 0; string hist; };
static Virt* vf; static Ex* vex;
extern "C" FILE* __real_fopen(const char* p, const char* m);
static void did(const char* what) { vf->hist+= string(" ⋄ ")+what; }
static ssize_t vread(void*, char* b, size_t n) {
  size_t left = vf->data.size()-vf->pos; int d = vex->deviate(left? 5 : 2); // all of it; an error; one byte; half; the rest is gone
  if (d==1) { did("read fails"); vf->fault = true; errno = EIO; return -1; }
  if (d==4) { did("read finds the end early"); vf->gone = true; vf->data.resize(vf->pos); return 0; }
  size_t k = std::min(n, left); if (d==2) k = std::min<size_t>(k, 1); if (d==3) k = (k+1)/2; if (d>=2) did("short read"); memcpy(b, vf->data.data()+vf->pos, k); vf->pos+= k; return k;
}
static ssize_t vwrite(void*, const char* b, size_t n) { int d = vex->deviate(n>1? 3 : 2); if (d) { did(d==1? "write fails" : "write is cut short"); vf->fault = true; errno = ENOSPC; } size_t k = d==0? n : d==1? 0 : n/2; vf->disk.append(b, k); return k; }
static int vseek(void*, off64_t* o, int wh) { if (wh==SEEK_END) *o+= vf->lies? 0 : vf->data.size(); else if (wh==SEEK_CUR) *o+= vf->pos; vf->pos = *o; return 0; }
static int vclose(void*) { vf->open--; if (vex->deviate(2)) { did("close fails"); if (vf->opened>0) vf->fault = true; errno = EIO; return -1; } return 0; }
static bool writing;
extern "C" FILE* __wrap_fopen(const char* p, const char* m) {
  if (!vf) return __real_fopen(p, m);
  if (vex->deviate(2)) { did("open fails"); vf->fault = true; errno = EACCES; return nullptr; }
  vf->open++; vf->opened++; writing = m[0]=='w'; cookie_io_functions_t io = {vread, vwrite, vf->seekable? vseek : nullptr, vclose}; return fopencookie(vf, m, io);
}
struct Hook { Hook(Virt& v, Ex& ex) { vf = &v; vex = &ex; } ~Hook() { vf = nullptr; } };
static string contents(int kind, size_t n) { string s; static const char* P[] = {"a", "é\n", "x𝔽\r\n", "\r", "zz\n\n"}; if (kind==3) { for (size_t i = 0; i < n; i++) s+= (char)(i*37+200); return s; } while (s.size()<n) { const char* p = kind==0? "a" : P[(s.size()+kind)%5]; if (s.size()+strlen(p)>n) p = "a"; s+= p; } return s; }
static void reading(Ex& ex) { // content, or an error when (and only when) a step failed
  int f = ex.pick(3); size_t n = ex.of(vector<int>{0, 1, 2, 30, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 32768, 70001}); string s = contents(ex.pick(f? 3 : 4), n); Virt v; v.data = s; int mode = ex.pick(3); v.seekable = mode!=1; v.lies = mode==2; ex.budget = ex.thorough? 3 : 2; BV r; int rc; const char* names[] = {"•FBytes", "•FChars", "•FLines"}; BV fn = fnOf(names[f]);
  { Hook h(v, ex); rc = cb_c1(fn, toB(T("/virtual/file")), &r); } ex.op(); ex.compared(); string what = strf("%s of a %sfile of %d bytes%s", names[f], mode==0? "" : mode==1? "non-seekable " : "size-0 ", (int)n, v.hist.c_str());
  if (v.open) ex.fail("%s\n  leaves the file open", what.c_str());
  if (v.fault && v.opened && v.hist.find("close fails")!=string::npos && v.hist.find("read fails")==string::npos) v.fault = false; // (closing a file that was only read loses nothing)
  if (v.gone && mode) { s = v.data; v.gone = false; } // a stream ends where it ends
  if (rc && !v.fault && !v.gone) { Val x; if (!(f==1? textOf(s, &x) : f==2? linesOf(s, &x) : true)) return; ex.fail("%s\n  gives an error: %s", what.c_str(), cb_err()); }
  if (!rc) { Val e; bool ok = true; if (f==0) e = bytesOf(s); else ok = f==1? textOf(s, &e) : linesOf(s, &e); if (v.fault || (v.gone && s.size()!=v.data.size())) ex.fail("%s\n  succeeds", what.c_str()); if (ok && !same(r, e)) ex.fail("%s\n  gives %s, expected %s", what.c_str(), show(fromB(r)).substr(0, 300).c_str(), show(e).substr(0, 300).c_str()); cb_dec(r); }
  if (n==0) sharedIntact(ex); ex.state(hashS(what)); ex.outcome(hashS(what));
}
static void writingS(Ex& ex) { // all of it is in the file, or an error when (and only when) a step failed
  int f = ex.pick(3); size_t n = ex.of(vector<int>{0, 1, 2, 30, 4095, 4096, 4097, 8193, 20000}); string s = contents(ex.pick(f? 3 : 4), n); Val x; if (f==0) x = bytesOf(s); else if (f==1) x = T(s); else { string t; for (char c : s) if (c!='\r') t+= c; if (t.size() && t.back()!='\n') t+= '\n'; s = t; if (!linesOf(t, &x)) abort(); }
  auto rp = repsOf(x, n<100? 1 : 0); const Rep& rep = rp[ex.pick(rp.size())]; Virt v; ex.budget = ex.thorough? 3 : 2; BV r; int rc; const char* names[] = {"•FBytes", "•FChars", "•FLines"}; BV fn = fnOf(names[f]); Val path = T("/virtual/é");
  { Hook h(v, ex); rc = cb_c2(fn, toB(path), toB(x, rep), &r); } ex.op(); ex.compared(); string what = strf("%s of %d bytes (stored as %s)%s", names[f], (int)s.size(), rep.str().c_str(), v.hist.c_str());
  if (v.open) ex.fail("%s\n  leaves the file open", what.c_str());
  if (!rc) { if (v.fault) ex.fail("%s\n  succeeds", what.c_str()); if (v.disk!=s) ex.fail("%s\n  succeeds with %d bytes in the file: %s", what.c_str(), (int)v.disk.size(), show(bytesOf(v.disk.substr(0, 200))).c_str()); if (!same(r, path)) ex.fail("%s\n  gives %s, not the path", what.c_str(), show(fromB(r)).c_str()); cb_dec(r); }
  else if (!v.fault) ex.fail("%s\n  gives an error: %s", what.c_str(), cb_err());
  ex.state(hashS(what)); ex.outcome(hashS(what));
}
static void refused(Ex& ex) { // what cannot be written is refused before the file is touched
  int f = ex.pick(3); vector<Val> bad = {Val(1), Val::chr('a'), Val::vec({Val::chr('a'), Val::vec({Val(1), Val(2)})}), Val::vec({Val::str("ab"), Val(3)}), Val::arr({1, 2}, {Val::chr('a'), Val::chr('b')}), Val::vec({Val::str("ab"), Val::vec({Val::vec({Val(1)})})}), Val::arr({}, {Val::str("a")}), Val::vec({Val::str("ab"), Val::arr({1, 1}, {Val::chr('a')})})};
  Val x = ex.of(bad); const char* names[] = {"•FBytes", "•FChars", "•FLines"}; Virt v; BV r; int rc; BV fn = fnOf(names[f]); { Hook h(v, ex); rc = cb_c2(fn, toB(T("/virtual/f")), toB(x), &r); } ex.op(); ex.compared();
  if (!rc) { ex.fail("%s %s\n  succeeds, writing %s", names[f], show(x).c_str(), show(bytesOf(v.disk)).c_str()); } if (v.opened) ex.fail("%s %s\n  fails after it has emptied the file", names[f], show(x).c_str());
  for (int p = 0; p < 5; p++) { Val q = vector<Val>{Val(1), Val::str("relative"), Val::vec({}), Val::vec({Val(1), Val(2)}), Val::vec({Val::str("/a")})}[p]; Virt u; { Hook h(u, ex); rc = ex.replay || true? cb_c2(fn, toB(q), toB(f==2? Val::vec({Val::str("a")}) : Val::str("a")), &r) : 0; } if (!rc) ex.fail("%s with the path %s\n  succeeds", names[f], show(q).c_str()); if (u.opened) ex.fail("%s with the path %s\n  opens a file", names[f], show(q).c_str()); { Hook h(u, ex); rc = cb_c1(fn, toB(q), &r); } if (!rc || u.opened) ex.fail("%s of the path %s\n  %s", names[f], show(q).c_str(), rc? "opens a file" : "succeeds"); ex.op(2); }
}
static void splitting(Ex& ex) { // every short text, by lines, and back
  int n = ex.pick(ex.thorough? 10 : 8); string s; static const vector<string> A = {"a", "\n", "\r", "é"}; for (int k = 0; k < std::min(n, 4); k++) s+= ex.of(A); int rest = n-std::min(n, 4); int tot = 1; for (int k = 0; k < rest; k++) tot*= 4; BV fl = fnOf("•FLines"), fc = fnOf("•FChars"); Val path = T("/virtual/f");
  for (int k = 0; k < tot; k++) { string t = s; int q = k; for (int j = 0; j < rest; j++) { t+= A[q%4]; q/= 4; } Val e, c; linesOf(t, &e); textOf(t, &c); Virt v; v.data = t; BV r; int rc; { Hook h(v, ex); rc = cb_c1(fl, toB(path), &r); } ex.op(3); ex.compared(3); if (rc || !same(r, e)) ex.fail("•FLines of %s gives %s, expected %s", show(c).c_str(), showRes(rc, r).c_str(), show(e).c_str());
    Virt w; BV r2; { Hook h(w, ex); rc = cb_c2(fl, toB(path), r, &r2); } string u; for (auto& l : e.it()) { for (auto& ch : l.it()) put(u, ch.c); u+= '\n'; } if (rc || w.disk!=u) ex.fail("•FLines writes %s as %s", show(e).c_str(), rc? cb_err() : show(bytesOf(w.disk)).c_str()); cb_dec(r2);
    Virt x; x.data = t; { Hook h(x, ex); rc = cb_c1(fc, toB(path), &r); } if (rc || !same(r, c)) ex.fail("•FChars of %s gives %s", show(c).c_str(), showRes(rc, r).c_str()); cb_dec(r); if (k%64==0) ex.tick(); }
  sharedIntact(ex);
}
// --- paths
static void paths(Ex& ex) {
  static const string A = "a./é"; static const vector<string> C = {"a", ".", "/", "é"}; string p; int n = ex.pick(ex.thorough? 8 : 7); for (int k = 0; k < n; k++) p+= ex.of(C); Val v = T(p); Outcome e; auto ok = [](const string& s) { Outcome o; o.v = T(s); return o; }; Outcome bad; bad.err = true;
  size_t sl = p.rfind('/'); // name: what follows the last slash
  e = p.empty() || sl+1==p.size()? bad : ok(sl==string::npos? p : p.substr(sl+1)); if (sl==string::npos && p.size()) e = ok(p); all1(ex, "•file.Name", fileF("name"), v, e, 1);
  size_t before = p.size()<2? string::npos : p.rfind('/', p.size()-2); e = p.empty()? bad : before!=string::npos? ok(p.substr(0, before+1)) : p[0]=='/'? ok(p) : ok("./"); all1(ex, "•file.Parent", fileF("parent"), v, e, 1);
  if (n<=4 || ex.thorough) for (string b : {"", "/", "a", "/a", "/a/", "./", "é/é", "//"}) { e = p[0]=='/' || b.empty()? ok(p) : p.empty()? ok(b) : ok(b+(b.back()=='/'? "" : "/")+p); all2(ex, "•file.At", fileF("at"), T(b), v, e, 0, 0); }
  { BV r; int rc = cb_c1(fileF("at"), toB(v), &r); ex.op(); ex.compared(); if (rc!=(p[0]!='/') || (!rc && !same(r, v))) ex.fail("•file.At %s with no base path gives %s", show(v).c_str(), showRes(rc, r).c_str()); if (!rc) cb_dec(r); }
  // the base, the parent and the name belong together
  if (sl!=string::npos && sl+1<p.size()) { BV a, b, r; if (cb_c1(fileF("parent"), toB(v), &a) || cb_c1(fileF("name"), toB(v), &b) || cb_c2(fileF("at"), a, b, &r)) ex.fail("%s: %s", show(v).c_str(), cb_err()); if (!same(r, v)) ex.fail("the name of %s at its parent is %s", show(v).c_str(), show(fromB(r)).c_str()); cb_dec(r); ex.op(3); ex.compared(); }
  sharedIntact(ex); ex.outcome(hashS(p));
}
// --- a tree of files: every operation in every state
static string root, scratch; static pid_t owner;
struct Node { char t; string s; bool operator==(const Node& o) const { return t==o.t && s==o.s; } }; typedef std::map<string, Node> Tree; // f contents, d, l target
static string par(const string& p) { size_t i = p.rfind('/'); return i==string::npos? "" : p.substr(0, i); }
static bool isDir(const Tree& t, const string& p) { if (p=="") return true; auto i = t.find(p); if (i==t.end()) return false; if (i->second.t=='l') { auto j = t.find(i->second.s); return j!=t.end() && j->second.t=='d' && isDir(t, par(i->second.s)); } return i->second.t=='d' && isDir(t, par(p)); }
static string follow(const Tree& t, const string& p) { auto i = t.find(p); return i!=t.end() && i->second.t=='l'? i->second.s : p; }
static string showT(const Tree& t) { string r; for (auto& [p, n] : t) r+= (r.size()? ", " : "")+p+(n.t=='d'? "/" : n.t=='l'? "→"+n.s : strf(" of %d bytes", (int)n.s.size())); return "{"+r+"}"; }
static Tree scan() { Tree t; for (auto& e : fs::recursive_directory_iterator(root)) { string p = e.path().string().substr(root.size()+1); if (e.is_symlink()) t[p] = {'l', fs::read_symlink(e.path()).string().substr(root.size()+1)}; else if (e.is_directory()) t[p] = {'d', ""}; else { string s; FILE* f = __real_fopen(e.path().c_str(), "rb"); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f))>0) s.append(b, k); fclose(f); t[p] = {'f', s}; } } return t; }
static void build(const Tree& t) { fs::remove_all(root); fs::create_directory(root); for (auto& [p, n] : t) { string q = root+"/"+p; if (n.t=='d') fs::create_directory(q); else if (n.t=='l') fs::create_symlink(root+"/"+n.s, q); else { FILE* f = __real_fopen(q.c_str(), "wb"); fwrite(n.s.data(), 1, n.s.size(), f); fclose(f); } } }
static const string CX = "l1\nl2\r\né", CY = string("\xff\0z", 3), CZ = "a\nb\n";
static void step(Ex& ex, Tree& t, string& hist, int& maps, BV* held, string* heldS, string* heldP) {
  static const vector<string> P = {"a", "é", "d", "d/a", "l", "no/x"}; int op = ex.pick(16); string p = ex.of(P), full = root+"/"+p; Val fv = T(full); BV r = 0; int rc; bool err = false; Val want = fv; Tree n = t; string q; const char* nm = ""; bool unordered = false; int had = fds();
  bool present = t.count(p) && isDir(t, par(p)); string tg = follow(t, p); bool loop = t.count(tg) && t[tg].t=='l'; bool readable = isDir(t, par(p)) && t.count(tg) && t[tg].t=='f';
  if (op<3) { static const char* N[] = {"•FBytes", "•FChars", "•FLines"}; nm = N[op]; rc = cb_c2(fnOf(nm), toB(fv), toB(op==0? bytesOf(CY) : op==1? T(CX) : Val::vec({Val::str("a"), Val::str("b")})), &r); err = !(isDir(t, par(p)) && isDir(t, par(tg)) && !isDir(t, tg)) || loop; if (!err) n[tg] = {'f', op==0? CY : op==1? CX : CZ}; }
  else if (op<6) { static const char* N[] = {"•FBytes", "•FChars", "•FLines"}; nm = N[op-3]; rc = cb_c1(fnOf(nm), toB(fv), &r); err = !readable; if (!err) { const string& s = t[tg].s; if (op==3) want = bytesOf(s); else err = !(op==4? textOf(s, &want) : linesOf(s, &want)); } }
  else if (op==6 || op==7) { q = ex.of(P); nm = "rename to"; if (op==7 && p!="d") return; rc = cb_c2(fileF("rename"), toB(T(root+"/"+q)), toB(fv), &r); want = T(root+"/"+q); bool qThere = isDir(t, par(q)) && t.count(q); if (qThere && t[q].t=='l' && (!t.count(t[q].s) || t[t[q].s].t=='l')) { if (!rc) cb_dec(r); build(t); return; } // (onto a dangling link: unspecified)
    err = !present || qThere || !isDir(t, par(q)) || (q.size()>p.size() && q.compare(0, p.size()+1, p+"/")==0); if (!err) { Tree m; for (auto& [a, b] : t) if (a==p) m[q] = b; else if (a.compare(0, p.size()+1, p+"/")==0) m[q+a.substr(p.size())] = b; else m[a] = b; n = m; } }
  else if (op==8) { nm = "remove"; rc = cb_c1(fileF("remove"), toB(fv), &r); err = !present || t[p].t=='d'; if (!err) n.erase(p); want = Val(1); }
  else if (op==9) { nm = "createdir"; rc = cb_c1(fileF("createdir"), toB(fv), &r); err = t.count(p) || !isDir(t, par(p)); if (!err) n[p] = {'d', ""}; }
  else if (op==10) { nm = "exists"; rc = cb_c1(fileF("exists"), toB(fv), &r); want = Val((double)present); }
  else if (op==11) { nm = "type"; rc = cb_c1(fileF("type"), toB(fv), &r); err = !present; if (!err) want = Val::chr(t[p].t); }
  else if (op==12) { nm = "size"; rc = cb_c1(fileF("size"), toB(fv), &r); err = !present; if (!err) { if (t[p].t=='d') { if (!rc) cb_dec(r); return; } want = Val((double)(t[p].t=='l'? root.size()+1+t[p].s.size() : t[p].s.size())); } }
  else if (op==13) { nm = "list"; rc = cb_c1(fileF("list"), toB(fv), &r); string dir = isDir(t, p)? follow(t, p) : ""; err = dir==""; unordered = true; if (!err) { vector<Val> v; for (auto& [a, b] : t) if (par(a)==dir) v.push_back(T(a.substr(dir.size()+1))); want = Val::vec(v); } }
  else if (op==14) { nm = "mapbytes"; rc = cb_c1(fileF("mapbytes"), toB(fv), &r); err = !readable; if (!err) want = bytesOf(t[tg].s); }
  else { nm = "realpath"; rc = cb_c1(fileF("realpath"), toB(fv), &r); err = !isDir(t, par(p)) || !t.count(tg) || loop; if (!err) want = T(root+"/"+tg); }
  hist+= strf(" ⋄ %s %s%s%s", nm, p.c_str(), q.size()? " → " : "", q.c_str()); ex.op(); ex.compared();
  if (rc && !err) ex.fail("%s\n  gives an error: %s", hist.c_str(), cb_err()); if (!rc && err) ex.fail("%s\n  gives %s, expected an error", hist.c_str(), show(fromB(r)).c_str());
  if (!rc) { Val got = fromB(r); if (unordered && got.isArr()) { vector<Val> v(got.it().begin(), got.it().end()); std::sort(v.begin(), v.end(), [](const Val& a, const Val& b) { return cmpV(a, b)<0; }); got = Val::vec(v); vector<Val> u(want.it().begin(), want.it().end()); std::sort(u.begin(), u.end(), [](const Val& a, const Val& b) { return cmpV(a, b)<0; }); want = Val::vec(u); if (!matchV(got, want)) ex.fail("%s\n  gives %s, expected %s", hist.c_str(), show(got).c_str(), show(want).c_str()); } else if (!same(r, want)) ex.fail("%s\n  gives %s, expected %s", hist.c_str(), show(got).c_str(), show(want).c_str()); }
  if (op<3 && !err && *held && *heldP==tg) { had-= heldS->size()>0; cb_dec(*held); *held = 0; } // (writing to a file that is mapped: unspecified)
  if (op==14 && !rc) { int kept = want.ia()>0; if (*held) { had-= heldS->size()>0; cb_dec(*held); } *held = r; *heldS = t[tg].s; *heldP = tg; had+= kept; } else if (!rc) cb_dec(r);
  if (*held && !same(*held, bytesOf(*heldS))) ex.fail("%s\n  changed the mapped file to %s", hist.c_str(), show(fromB(*held)).c_str());
  if (*held && op==6 && !err && *heldP==p) *heldP = q; if (*held && (op==6||op==7) && p=="d" && !err && heldP->compare(0, 2, "d/")==0) *heldP = q+heldP->substr(1); if (*held && op==8 && !err && *heldP==p) *heldP = "-";
  int now = fds(); if (now!=had) ex.fail("%s\n  %d files are open, before there were %d", hist.c_str(), now, had); t = n; Tree got = scan(); if (got!=t) ex.fail("%s\n  leaves %s, expected %s", hist.c_str(), showT(got).c_str(), showT(t).c_str()); ex.state(hashS(showT(t)+nm+p+q));
}
static void trees(Ex& ex, int depth) {
  Tree t; auto content = [&](const string& p) { int k = ex.pick(depth==1 || ex.thorough? 3 : 2); if (k) t[p] = {'f', k==1? CX : string()}; }; content("a"); int d = ex.pick(4); if (d==1) t["d"] = {'f', CY}; if (d>=2) t["d"] = {'d', ""}; if (d==3) t["d/a"] = {'f', CZ}; int l = ex.pick(3); if (l) t["l"] = {'l', l==1? "a" : "d"}; if ((depth==1 || ex.thorough) && ex.flag()) t["é"] = {'f', CZ};
  if (root.empty() || !fs::exists(root)) { root = strf("%s/%d", scratch.c_str(), (int)getpid()); } build(t); string hist = "in "+showT(t); int maps = 0; BV held = 0; string hs, hp; struct Clean { BV& h; ~Clean() { if (h) cb_dec(h); fs::remove_all(root); } } clean{held};
  for (int k = 0; k < depth; k++) step(ex, t, hist, maps, &held, &hs, &hp); ex.outcome(hashS(showT(t)));
}
static void tree1(Ex& ex) { trees(ex, 1); }
static void tree2(Ex& ex) { trees(ex, 2); }
static void names(Ex& ex) { // a directory lists exactly what is in it
  static const vector<string> A = {".", "a", "é", "\n", " "}; if (root.empty() || !fs::exists(root)) root = strf("%s/%d", scratch.c_str(), (int)getpid()); fs::remove_all(root); fs::create_directory(root); struct Clean { ~Clean() { fs::remove_all(root); } } clean; vector<string> ns; int mode = ex.pick(4), kind = ex.pick(2);
  auto all = [&](int maxL) { vector<string> r, cur = {""}; for (int l = 0; l < maxL; l++) { vector<string> nx; for (auto& c : cur) for (auto& a : A) nx.push_back(c+a); for (auto& c : nx) if (c!="." && c!="..") r.push_back(c); cur = nx; } return r; };
  if (mode==0) { string n; int l = 1+ex.pick(ex.thorough? 4 : 3); for (int k = 0; k < l; k++) n+= ex.of(A); if (n=="." || n=="..") return; ns = {n}; } else if (mode==1) ns = all(ex.thorough? 4 : 3); else if (mode==2) { ns = {string(255, 'x'), string(255, '.'), string(127, 'y')}; for (int k = 0; k < 127; k++) ns[2]+= "é"; ns[2].resize(253); } else { int n = ex.pick(3)*700; for (int k = 0; k < n; k++) ns.push_back(strf("f%d", k)); }
  for (auto& n : ns) { string q = root+"/"+n; if (kind) fs::create_directory(q); else { FILE* f = __real_fopen(q.c_str(), "wb"); if (!f) ex.fail("cannot make %s", q.c_str()); fclose(f); } }
  BV r; int rc = cb_c1(fileF("list"), toB(T(root)), &r); ex.op(); ex.compared(); string what = "•file.List of a directory with "+(ns.size()<4? show(Val::vec([&]() { vector<Val> v; for (auto& n : ns) v.push_back(T(n)); return v; }())) : strf("%d entries", (int)ns.size())); if (rc) ex.fail("%s\n  gives an error: %s", what.c_str(), cb_err());
  auto less = [](const Val& a, const Val& b) { return cmpV(a, b)<0; }; Val g = fromB(r); cb_dec(r); if (!g.isArr() || g.a->sh.size()!=1) ex.fail("%s\n  gives %s", what.c_str(), show(g).c_str()); vector<Val> v(g.it().begin(), g.it().end()), u; for (auto& n : ns) u.push_back(T(n)); std::sort(v.begin(), v.end(), less); std::sort(u.begin(), u.end(), less); if (!matchV(Val::vec(v), Val::vec(u))) ex.fail("%s\n  gives %s", what.c_str(), show(g).substr(0, 300).c_str());
  if (ns.size()==1) { Val f = T(root+"/"+ns[0]); rc = cb_c1(fileF("type"), toB(f), &r); ex.op(); ex.compared(); if (rc || !same(r, Val::chr(kind? 'd' : 'f'))) ex.fail("•file.Type of %s gives %s", show(f).c_str(), showRes(rc, r).c_str()); rc = cb_c1(fileF("exists"), toB(f), &r); if (rc || !same(r, Val(1))) ex.fail("•file.Exists of %s gives %s", show(f).c_str(), showRes(rc, r).c_str()); if (kind) return; rc = cb_c1(fileF("remove"), toB(f), &r); if (rc) ex.fail("•file.Remove of %s: %s", show(f).c_str(), cb_err()); if (fs::exists(root+"/"+ns[0])) ex.fail("•file.Remove of %s leaves it", show(f).c_str()); }
  ex.state(hashS(what)+kind);
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C27"; c.assumptions = {"files are not changed by others during an operation other than by being cut short", "the scratch file system follows POSIX"};
  c.init = []() { cb_init(); char b[] = "/dev/shm/mc-C27-XXXXXX"; scratch = mkdtemp(b); owner = getpid(); atexit([]() { if (getpid()==owner) fs::remove_all(scratch); }); for (auto f : {"•FBytes", "•FChars", "•FLines"}) fnOf(f); for (auto f : {"at", "list", "type", "size", "exists", "name", "parent", "mapbytes", "createdir", "realpath", "rename", "remove"}) fileF(f); cb_gc(); };
  c.perRun = gcEvery(64);
  c.sc = {{"names", 2, names, 3, "directories with each of 153 (778) names, all of them, the longest, and 0–1400 entries"}, {"reading", 3, reading, 3, "files and streams of 13 sizes and 4 kinds, every schedule of up to 2 (3) failing, short or ending steps"},
          {"writing", 3, writingS, 3, "9 sizes, 4 kinds, all representations, every schedule of up to 2 (3) failing or short steps, among them the last flush and the close"},
          {"refused", 2, refused, 3, "values that are no file contents, and values that are no path"},
          {"splitting", 4, splitting, 3, "every text of up to 7 (9) of 4 characters by lines and back"},
          {"paths", 4, paths, 3, "every path of up to 6 (7) of 4 characters; joined to 8 bases"},
          {"tree", 4, tree1, 3, "every operation on every path in each of 72 trees"},
          {"pairs", 5, tree2, 3, "every two operations in each of the trees"}};
  return mainMC(argc, argv, c);
}
