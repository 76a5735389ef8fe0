// •Import: every graph of files that import each other, every history of imports over it.
#include "gen.hpp"
#include <filesystem>
namespace fs = std::filesystem;
using namespace bq;
extern "C" void clearImportCache(void);
extern "C" FILE* __real_fopen(const char* p, const char* m);
static string scratch, root; static pid_t owner; // root: /dev/shm/mc-C32-…: a.bqn, b.bqn, s/c.bqn, l.bqn → b.bqn; their contents are given at fopen
static const char* const NAME[] = {"a.bqn", "b.bqn", "s/c.bqn"};
static std::map<string, string> content; static string opened; static bool unreadable[3];
extern "C" FILE* __wrap_fopen(const char* p, const char* m) {
  string s = p; if (s.compare(0, root.size(), root)) return __real_fopen(p, m); for (int k = 0; k < 3; k++) if (s==root+"/"+NAME[k]) { if (unreadable[k]) { errno = EACCES; return nullptr; } const string& c = content[NAME[k]]; return fmemopen((void*)c.data(), c.size(), "r"); }
  errno = ENOENT; return nullptr;
}
static string out(const std::function<void()>& f) { static FILE* m = nullptr; static char* b = nullptr; static size_t n = 0; if (!m) m = open_memstream(&b, &n); fflush(stdout); rewind(m); FILE* o = stdout; stdout = m; try { f(); } catch (...) { stdout = o; throw; } fflush(m); stdout = o; return string(b, n); }
enum { NONE, IMP, CAUGHT, ARGS, MISSING, MISSING_C, VIABQN, TWICE };
struct Op { int k = 0, to = 0, spell = 0; };
struct File { Op op[2]; int n = 0; bool err = false, bad = false; int ver = 0; };
static string spell(int from, int to, int sp) { // how a file refers to another
  static const char* S[2][3][3] = {{{"a.bqn", "./a.bqn", "s/../a.bqn"}, {"b.bqn", "l.bqn", "s/../l.bqn"}, {"s/c.bqn", "./s//c.bqn", "s/../s/c.bqn"}}, {{"../a.bqn", "./../a.bqn", "../s/../a.bqn"}, {"../b.bqn", "../l.bqn", "./../b.bqn"}, {"c.bqn", "./c.bqn", "../s/c.bqn"}}}; return S[from==2][to][sp];
}
static string text(int f, const File& x) {
  if (x.bad) return "1+"; string dir = f==2? root+"/s" : root; string s = strf("•Out •path∾\"|\"∾•name∾\" %d\"", x.ver); static const char* V[] = {"r", "s"};
  for (int k = 0; k < 2; k++) { const Op& o = x.op[k]; string p = "\""+spell(f, o.to, o.spell)+"\"", e = "0"; switch (o.k) { case IMP: e = "•Import "+p; break; case CAUGHT: e = "•Import⎊9 "+p; break; case ARGS: e = strf("⟨%d,5⟩•Import ", f)+p; break; case MISSING: e = "•Import \"zz.bqn\""; break; case MISSING_C: e = "•Import⎊8 \"zz.bqn\""; break; case VIABQN: e = "•BQN \"•Import \"∾(@+34)∾\""+root+"/"+NAME[o.to]+"\"∾(@+34)"; break; case TWICE: e = "(•Import "+p+")⊸≡•Import⎊9 "+p; break; } s+= string(" ⋄ ")+V[k]+"←"+e; }
  if (x.err) s+= " ⋄ !0"; return s+strf(" ⋄ ⟨%d,r,s,≠•args⟩", f*10+x.ver);
}
struct IErr { int kind; }; // 0 cyclic, 1 failed assertion, 2 no such file, 3 not a program, 4 unreadable, 5 too deep
struct Model {
  const File* f; string log; int state[3] = {0, 0, 0}; Val val[3]; int depth = 0; bool deep = false; const bool* unread;
  Val run(int k, int args) { if (++depth>12) { deep = true; throw IErr{5}; } struct D { int& d; ~D() { d--; } } d{depth}; if (unread[k]) throw IErr{4}; const File& x = f[k]; if (x.bad) throw IErr{3}; log+= (k==2? root+"/s|c.bqn" : root+"|"+NAME[k])+strf(" %d\n", x.ver); Val r[2] = {0, 0};
    for (int j = 0; j < 2; j++) { const Op& o = x.op[j]; switch (o.k) { case IMP: case VIABQN: r[j] = import(o.to); break; case CAUGHT: r[j] = caught(o.to); break; case ARGS: r[j] = run(o.to, 2); break; case MISSING: throw IErr{2}; case MISSING_C: r[j] = Val(8); break; case TWICE: { Val y = caught(o.to); Val z = import(o.to); r[j] = Val(same(y, z)); break; } default: r[j] = Val(0); } }
    if (x.err) throw IErr{1}; return Val::vec({Val(k*10+x.ver), r[0], r[1], Val(args)}); }
  static bool same(const Val& a, const Val& b) { return show(a)==show(b); }
  Val import(int k) { if (state[k]==1) throw IErr{0}; if (state[k]==2) return val[k]; state[k] = 1; try { Val v = run(k, 0); state[k] = 2; return val[k] = v; } catch (IErr&) { state[k] = 0; throw; } }
  Val caught(int k) { try { return import(k); } catch (IErr& e) { if (deep) throw; return Val(9); } }
};
static string describe(const File* f) { string s; for (int k = 0; k < 3; k++) s+= string(NAME[k])+(unreadable[k]? " cannot be read" : ": "+text(k, f[k]))+"\n"; return s; }
static const char* const CLS[] = {"cyclic import", "ssert", "Failed to resolve", "", "read file", ""};
static void play(Ex& ex, File* f, int nops, const int* ops) { // 0–2 import of a file, 3 of b through the link, 4–6 with arguments, 7 edits every file, 8 clears the cache, 9–11 heal or break
  clearImportCache(); static BV imp = fnOf("•Import"), args = toB(Val::vec({Val(7), Val(8)})); static std::map<string, BV> paths; Model m; m.f = f; m.unread = unreadable; string hist = describe(f); BV held[3] = {0, 0, 0}; struct Free { BV* h; ~Free() { for (int k = 0; k < 3; k++) if (h[k]) cb_dec(h[k]); } } fr{held}; auto write = [&]() { for (int k = 0; k < 3; k++) content[NAME[k]] = text(k, f[k]); }; write();
  for (int i = 0; i < nops; i++) { int o = ops[i];
    if (o==7) { for (int k = 0; k < 3; k++) f[k].ver++; write(); hist+= "\nthe version numbers go up"; continue; } if (o==8) { clearImportCache(); for (int k = 0; k < 3; k++) { m.state[k] = 0; if (held[k]) { cb_dec(held[k]); held[k] = 0; } } hist+= "\n)clearImportCache"; continue; } if (o>=9) { File& x = f[o-9]; if (x.bad || x.err) x.bad = x.err = false; else x.err = true; write(); hist+= strf("\n%s becomes: ", NAME[o-9])+text(o-9, x); continue; }
    int k = o==3? 1 : o<3? o : o-4; string p = root+"/"+(o==3? "l.bqn" : NAME[k]); if (!paths.count(p)) paths[p] = toB(Val::str(p.c_str())); hist+= strf("\n%s•Import \"%s\"", o<4? "" : "⟨7,8⟩", o==3? "l.bqn" : NAME[k]);
    m.log.clear(); Val want; int err = -1; bool was = o<4 && m.state[k]==2; try { want = o<4? m.import(k) : m.run(k, 2); } catch (IErr& e) { err = e.kind; } if (m.deep) return; // (imports with arguments may go round forever)
    BV r = 0; int rc; int gs = cb_gsdepth(), env = cb_envdepth(); string log = out([&]() { rc = o<4? cb_c1(imp, cb_inc(paths[p]), &r) : cb_c2(imp, cb_inc(args), cb_inc(paths[p]), &r); }); ex.op(); ex.compared(2); if (cb_gsdepth()!=gs || cb_envdepth()!=env) ex.fail("%s\n  leaves the stacks changed", hist.c_str());
    if (log!=m.log) ex.fail("%s\n  runs\n%s  expected\n%s", hist.c_str(), log.c_str(), m.log.c_str());
    if (rc && err<0) ex.fail("%s\n  gives an error: %s", hist.c_str(), cb_err()); if (!rc && err>=0) ex.fail("%s\n  gives %s, expected an error", hist.c_str(), show(fromB(r)).c_str());
    if (rc) { if (!strstr(cb_err(), CLS[err]) || (err!=0 && strstr(cb_err(), CLS[0]))) ex.fail("%s\n  gives the error “%s”, expected one about “%s”", hist.c_str(), cb_err(), CLS[err]); continue; }
    if (!bq::same(r, want)) ex.fail("%s\n  gives %s, expected %s", hist.c_str(), show(fromB(r)).c_str(), show(want).c_str());
    if (o<4) { if (was && held[k] && held[k]!=r) ex.fail("%s\n  gives another value than the first import did", hist.c_str()); if (held[k]) cb_dec(held[k]); held[k] = r; } else cb_dec(r);
  }
  ex.state(hashS(hist)); ex.outcome(hashS(m.log)); ex.tick();
}
static void clear() { for (bool& b : unreadable) b = false; }
static void pickOp(Ex& ex, Op& o, int f, int full) { int k = ex.pick(full>1? 7 : full? 13 : 9); if (k==0) return; if (k<4) { o.k = IMP; o.to = k-1; } else if (k<7) { o.k = CAUGHT; o.to = k-4; } else if (k==7) { o.k = MISSING_C; } else if (k==8) { o.k = ARGS; o.to = (f+1)%3; } else if (k==9) o.k = MISSING; else if (k==10) { o.k = VIABQN; o.to = (f+1)%3; } else if (k==11) { o.k = VIABQN; o.to = f; } else { o.k = TWICE; o.to = (f+1)%3; } }
static void graphs(Ex& ex) { // every graph of three files, and a fixed history that imports everything
  File f[3]; clear(); pickOp(ex, f[0].op[0], 0, ex.thorough); pickOp(ex, f[0].op[1], 0, false); pickOp(ex, f[1].op[0], 1, true); if (ex.thorough) pickOp(ex, f[1].op[1], 1, false); pickOp(ex, f[2].op[0], 2, false); for (int k = 0; k < 3; k++) { f[k].op[1].spell = 1; f[k].err = ex.flag(); }
  static const int ops[] = {0, 1, 0, 2}; play(ex, f, 4, ops);
}
static void histories(Ex& ex) { // every history over graphs of one import per file
  File f[3]; clear(); for (int k = 0; k < 3; k++) { pickOp(ex, f[k].op[0], k, ex.thorough? 0 : 2); f[k].err = k!=1 && ex.flag(); } int n = ex.thorough? 4 : 3, ops[4]; for (int i = 0; i < n; i++) { static const int Q[] = {0, 1, 3, 7, 9, 11, 8, 5}; ops[i] = Q[ex.pick(ex.thorough? 8 : 7)]; } if (ops[n-1]>6) return; play(ex, f, n, ops);
}
static void faults(Ex& ex) { // files that are no program, cannot be read, or are missing
  File f[3]; clear(); for (int k = 0; k < 3; k++) { pickOp(ex, f[k].op[0], k, true); int q = ex.pick(3); f[k].bad = q==1; unreadable[k] = q==2; } static const int ops[][4] = {{0, 1, 9, 0}, {1, 10, 1, 0}, {4, 0, 5, 2}}; play(ex, f, 4, ops[ex.pick(3)]); clear();
}
static void spellings(Ex& ex) { // a file is one file by whatever name
  File f[3]; clear(); for (int k = 0; k < 3; k++) { for (int j = 0; j < 2; j++) { Op& o = f[k].op[j]; o.k = ex.flag()? IMP : CAUGHT; o.to = (k+1+(j? ex.pick(2) : 0))%3; o.spell = ex.thorough || k+j<2? ex.pick(3) : k; } } static const int ops[] = {0, 3, 2}; play(ex, f, 3, ops);
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C32"; c.useStates = true; c.assumptions = {"files do not change while they are read"};
  c.init = []() { cb_init(); char b[] = "/dev/shm/mc-C32-XXXXXX"; root = scratch = mkdtemp(b); owner = getpid(); atexit([]() { if (getpid()==owner) fs::remove_all(scratch); }); fs::create_directory(root+"/s"); for (auto n : NAME) { FILE* g = __real_fopen((root+"/"+n).c_str(), "w"); fclose(g); } fs::create_symlink(root+"/b.bqn", root+"/l.bqn"); fnOf("•Import"); cb_gc(); };
  c.perRun = gcEvery(200);
  c.sc = {{"graphs", 4, graphs, 3, "three files with up to 2 imports each, failing or not"},
          {"histories", 4, histories, 3, "histories of 3 of 7 (4 of 8) operations over every graph of one import per file"},
          {"faults", 3, faults, 3, "files that are no program, cannot be read or are missing"},
          {"spellings", 4, spellings, 3, "6 imports, 3 (all) of them by 3 spellings each"}};
  return mainMC(argc, argv, c);
}
