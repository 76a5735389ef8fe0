// The command line: what is given is run, in order, with the output, arguments and exit status that belong to it.
#include "gen.hpp"
#include <filesystem>
#include <stdio_ext.h>
namespace fs = std::filesystem;
using namespace bq;
extern "C" int cbqn_main(int argc, char** argv);
static string scratch; static pid_t owner;
struct Res { string out, err; int st; }; // st: exit status, or 1000+signal
static int fdOf(const string& s) { int f = memfd_create("x", 0); if (f<0 || write(f, s.data(), s.size())!=(ssize_t)s.size()) abort(); lseek(f, 0, SEEK_SET); return f; }
static string slurp(int f) { string s; char b[4096]; lseek(f, 0, SEEK_SET); for (ssize_t k; (k = read(f, b, sizeof b))>0;) s.append(b, k); close(f); return s; }
static Res cli(const vector<string>& args, const string& in, const string& cwd = "") { // in a process of its own
  int i = fdOf(in), o = fdOf(""), e = fdOf(""); pid_t p = fork(); if (p<0) abort();
  if (!p) { struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl); rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); alarm(60); for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGINT, SIGTERM, SIGPIPE}) signal(s, SIG_DFL); sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, nullptr); __fpurge(stdout); __fpurge(stderr); dup2(i, 0); dup2(o, 1); dup2(e, 2); clearerr(stdin); __fpurge(stdin); if (chdir((cwd.empty()? scratch : cwd).c_str())) _exit(99);
    vector<char*> v; v.push_back(strdup("bqn")); for (auto& a : args) v.push_back(strdup(a.c_str())); v.push_back(nullptr); cbqn_main(v.size()-1, v.data()); _exit(98); }
  int st; while (waitpid(p, &st, 0)<0) if (errno!=EINTR) abort(); Res r; close(i); r.out = slurp(o); r.err = slurp(e); r.st = WIFEXITED(st)? WEXITSTATUS(st) : 1000+WTERMSIG(st); return r;
}
static string showA(const vector<string>& a, const string& in) { string s = "bqn"; for (auto& x : a) s+= " "+(x.find_first_of(" \"•⟨()\n;")==string::npos && x.size()? x : "'"+x+"'"); if (in.size()) s+= "\n  with the input "+show(Val::str(string(in).c_str())); return s; }
// what each word does as a program: it fails, or prints something and has a value
struct Prog { bool err; string prints, val; bool str; int exits; };
static const std::map<string, Prog>& progs() { static const std::map<string, Prog> P = {
  {"•Out \"a\"", {false, "a\n", "\"a\"", true, -1}}, {"1+1", {false, "", "2", false, -1}}, {"\"xy\"", {false, "", "\"xy\"", true, -1}}, {"1+'a'+'b'", {true, "", "", false, -1}}, {"•Out \"b\" ⋄ •Exit 7", {false, "b\n", "", false, 7}}, {"100", {false, "", "100", false, -1}}, {"-", {false, "", "-", false, -1}}, {"•Out¨•args", {false, "", "⟨⟩", true, -1}}, {"v←5", {false, "", "5", false, -1}}, {"v", {false, "", "?v", false, -1}}, {"-1 #", {false, "", "¯1", false, -1}}};
  return P; }
struct World { string out; bool err = false, uns = false; int st = 0; bool v = false; std::set<string> files; };
static const string AB = "•Out \"file\"\n•Out •name\n•Out¨ •args\n\"value\"\n", BB = "•Out \"b\"\n1+'a'+'b'\n", CB = "•Out \"start\"\n•Exit 5\n•Out \"end\"\n";
static bool run(World& w, const string& code, string* val, bool* str) { // false: the program is over
  auto i = progs().find(code); if (i==progs().end() || (code=="v" && !w.v) || (code=="v←5" && w.v)) w.uns = true; // (the compiler of this build keeps no names from one program to the next)
  if (i==progs().end() || i->second.err || (code=="v" && !w.v)) { w.err = true; w.st = 1; return false; } const Prog& p = i->second; w.out+= p.prints; if (p.exits>=0) { w.st = p.exits; return false; } if (code=="v←5") w.v = true; if (val) *val = code=="v"? "5" : p.val; if (str) *str = p.str; return true;
}
static World expect(const vector<string>& a, const string& in, bool& unspec) {
  World w; size_t i = 0; bool repl = a.empty(), silent = false, ex = false; unspec = false; auto bad = [&]() { w.st = 1; w.err = true; return w; };
  bool file = false;
  while (i<a.size()) {
    const string& c = a[i]; if (c.empty() || c[0]!='-') break; if (c=="-") { ex = true; i++; break; } i++;
    if (c[1]=='-') { if (c=="--help") { w.out+= "\1"; return w; } if (c=="--version") { w.out+= "\2"; return w; } return bad(); }
    for (size_t k = 1; k<c.size(); k++) { char o = c[k]; bool req = strchr("fepoM", o)!=nullptr; if (!strchr("fepoMLhrs", o)) return bad(); if (req && k+1<c.size()) return bad(); if (req && i==a.size()) return bad();
      if (o=='h') { w.out+= "\1"; return w; } if (o=='r') repl = true; if (o=='s') repl = silent = true; if (o=='f') { file = true; break; }
      if (o=='M') { const string& m = a[i++]; if (m.empty()) { unspec = true; return w; } double x = 0; for (char d : m) { if (d<'0' || d>'9') return bad(); x = x*10+d-'0'; } if (x>17592186044415.) return bad(); if (x<16) { unspec = true; return w; } }
      if (o=='e' || o=='p' || o=='o') { string v; bool s; bool ok = run(w, a[i++], &v, &s); if (w.uns) unspec = true; if (!ok || w.uns) return w; if (o=='p') w.out+= v+"\n"; if (o=='o') { if (!s) return bad(); w.out+= (v=="⟨⟩"? "" : v.substr(1, v.size()-2))+"\n"; } }
    }
    if (file) break;
  }
  if (i<a.size() || ex) { string src = ex? "" : a[i++]; vector<string> rest(a.begin()+i, a.end());
    if (ex) { if (in=="•Out \"in\"\n1+1\n") w.out+= "in\n"; else if (in=="•Out¨•args\n•Exit 3\n1\n") { for (auto& r : rest) w.out+= r+"\n"; w.st = 3; return w; } else if (in=="•Out \"q\" ⋄ 1+'a'+'b'\n1+1") { w.out+= "q\n"; return bad(); } else return bad(); }
    else if (src=="a.bqn" || src=="./a.bqn") { w.out+= "file\na.bqn\n"; for (auto& r : rest) w.out+= r+"\n"; } else if (src=="b.bqn") { w.out+= "b\n"; return bad(); } else if (src=="c.bqn") { w.out+= "start\n"; w.st = 5; return w; } else return bad(); }
  if (repl) { string pr = silent? "" : "   "; string rest = ex? "" : in; bool any = false;
    while (rest.size()) { size_t n = rest.find('\n'); string l = rest.substr(0, n); rest = n==string::npos? "" : rest.substr(n+1); w.out+= pr; if (l=="•Out \"in\"") w.out+= "in\n\"in\"\n"; else if (l=="1+1") w.out+= "2\n"; else if (l=="•Exit 3") { w.st = 3; return w; } else if (l=="•Out¨•args") w.out+= "⟨⟩\n"; else if (l=="1") w.out+= "1\n"; else if (l=="•Out \"q\" ⋄ 1+'a'+'b'") { w.out+= "q\n"; w.err = true; } else if (l.size()) abort(); }
    if (!silent) w.out+= pr+"\n"; (void)any; }
  return w;
}
static void judge(Ex& ex, const vector<string>& a, const string& in, const World& w) {
  Res r = cli(a, in); ex.op(); ex.compared(); string s = showA(a, in); string o = r.out, want = w.out; bool help = want.size() && want.back()=='\1', ver = want.size() && want.back()=='\2'; if (help || ver) { want.pop_back(); if (o.compare(0, want.size(), want)==0) { string rest = o.substr(want.size()); if (help? rest.find("Usage: bqn")!=string::npos : rest.size()>3) o = want; } }
  if (w.err && o!=want) { size_t n = want.size(); if (o.compare(0, n, want)==0 && r.err.empty()) { r.err = o.substr(n); o = want; } } // (some messages about options are on the output)
  if (r.st>=1000) ex.fail("%s\n  is killed by signal %d, after %s %s", s.c_str(), r.st-1000, show(Val::str(string(r.out).c_str())).c_str(), show(Val::str(string(r.err).c_str())).c_str());
  if (o!=want) ex.fail("%s\n  prints %s, expected %s (status %d, on the error stream %s)", s.c_str(), show(Val::str(string(r.out).c_str())).c_str(), show(Val::str(string(want).c_str())).c_str(), r.st, show(Val::str(string(r.err).c_str())).substr(0, 300).c_str());
  if (r.st!=w.st) ex.fail("%s\n  exits with %d, expected %d (%s)", s.c_str(), r.st, w.st, show(Val::str(string(r.err).c_str())).substr(0, 300).c_str());
  if (w.err!=(r.err.size()>0)) ex.fail("%s\n  %s: %s", s.c_str(), w.err? "says nothing of the error" : "writes to the error stream", show(Val::str(string(r.err).c_str())).c_str());
  ex.state(hashS(s)); ex.outcome(hashS(want+std::to_string(r.st)));
}
static void words(Ex& ex, int most) {
  static const vector<string> W = {"-e", "-p", "-o", "-r", "-s", "-rp", "-M", "-f", "-", "•Out \"a\"", "1+1", "\"xy\"", "1+'a'+'b'", "•Out \"b\" ⋄ •Exit 7", "a.bqn", "100", "v←5", "v", "b.bqn", "c.bqn", "none.bqn", "./a.bqn", "-pr", "-x", "--help", "--version", "--bogus", "-M4", "99999999999999", "18446744073709551617", "•Out¨•args", "-1 #"};
  static const vector<string> IN = {"•Out \"in\"\n1+1\n", "•Out \"q\" ⋄ 1+'a'+'b'\n1+1", "•Out¨•args\n•Exit 3\n1\n", ""}; int n = ex.pick(most+1); vector<string> a; int nw = n>3? 22 : n==3? 22 : W.size(); for (int k = 0; k < n; k++) a.push_back(W[ex.pick(nw)]);
  bool reads = a.empty(); for (auto& s : a) if (s.size()>1 && s[0]=='-' && (s=="-r" || s=="-s" || s=="-rp")) reads = true; for (auto& s : a) if (s=="-") reads = true; const string& in = IN[reads? ex.pick(4) : 3]; bool uns; World w = expect(a, in, uns); if (uns) return; judge(ex, a, in, w); ex.tick();
}
static void words3(Ex& ex) { words(ex, 3); }
static void words4(Ex& ex) { // every four that begin with an option
  static const vector<string> O = {"-e", "-p", "-o", "-r", "-M", "-"}; static const vector<string> W = {"-e", "-p", "-s", "-f", "-", "•Out \"a\"", "1+1", "\"xy\"", "1+'a'+'b'", "•Out \"b\" ⋄ •Exit 7", "a.bqn", "100", "v←5", "v"}; static const vector<string> IN = {"•Out \"in\"\n1+1\n", "•Out¨•args\n•Exit 3\n1\n"};
  vector<string> a = {ex.of(O)}; int n = ex.thorough? 5 : 4; for (int k = 1; k < n; k++) a.push_back(ex.of(W)); bool reads = false; for (auto& s : a) if (s=="-r" || s=="-s" || s=="-") reads = true; const string& in = IN[reads? ex.pick(2) : 0]; bool uns; World w = expect(a, in, uns); if (uns) return; judge(ex, a, reads? in : in, w); ex.tick();
}
static void arguments(Ex& ex) { // a program's own words, whatever they look like and whatever stands before the program
  static const vector<vector<string>> PRE = {{}, {"-f"}, {"-r"}, {"-e", "1+1"}, {"-p", "1+1"}, {"-r", "-p", "1+1"}, {"-e", "1+1", "-o", "\"xy\"", "-f"}, {"-M", "400", "-r", "-p", "\"xy\""}, {"-rf"}, {"-"}, {"-r", "-"}, {"-p", "1+1", "-e", "v←5", "-p", "v", "-e", "•Out \"a\""}};
  static const vector<string> W = {"x", "-e", "", "é𝕩", "--help", "-", "a.bqn"}; static const string L(5000, 'w'); vector<string> a = ex.of(PRE); bool in = a.size() && a.back()=="-", rp = !in; if (!in) a.push_back("a.bqn"); int n = ex.pick(ex.thorough? 6 : 5); for (int k = 0; k < n; k++) a.push_back(W[ex.pick(n>3? 4 : W.size())]); if (n==3 && ex.pick(2)) for (int k = 0; k < 300; k++) a.push_back(k%7? strf("%d", k) : L);
  bool uns; World w = expect(a, in? "•Out¨•args\n•Exit 3\n1\n" : "", uns); (void)rp; if (uns) return; judge(ex, a, in? "•Out¨•args\n•Exit 3\n1\n" : "", w); ex.tick();
}
// --- lines of the interactive mode
static void lines(Ex& ex) {
  struct L { const char* s; const char* out; int err, exits; };
  static const vector<L> A = {{"1+1", "2\n", 0, -1}, {"•Out \"a\"", "a\n\"a\"\n", 0, -1}, {"1+'a'+'b'", "", 1, -1}, {"\"open", "", 1, -1}, {"v←5", "5\n", 0, -1}, {"v", "?v", 0, -1}, {"v↩v+1", "?+", 0, -1}, {")r •Out \"r\"", "r\n", 0, -1}, {")ex a.bqn", "?f", 0, -1}, {")ex none.bqn", "", 1, -1}, {")ex b.bqn", "b\n", 1, -1}, {")gc", "", 0, -1}, {")bogus", "?", 0, -1}, {")off", "", 0, 0}, {")exit", "", 0, 0}, {"•Exit 9", "", 0, 9}, {"", "", 0, -1}, {")clearImportCache", "", 0, -1}, {"2×3", "6\n", 0, -1}, {"1 ⋄ 2", "2\n", 0, -1}, {")internalPrint 8", "8\n", 0, -1}, {")r v←6", "?6", 0, -1}};
  int n = 1+ex.pick(ex.thorough? 4 : 3), sep = ex.pick(3); string in, want; int err = 0, st = 0; bool over = false; int v = -1; bool vDef = false;
  for (int k = 0; k < n; k++) { const L& l = ex.of(A); in+= l.s; in+= k+1<n || sep!=2? (sep==1? "\r\n" : "\n") : ""; if (over) continue; string o = l.out; bool e = l.err; string s = l.s;
    if (s=="v←5" || s==")r v←6") { if (vDef) return; else { v = s=="v←5"? 5 : 6; vDef = true; o = s=="v←5"? "5\n" : ""; } }
    else if (s=="v") { if (v<0) return; else o = std::to_string(v)+"\n"; }
    else if (s=="v↩v+1") { if (v<0) return; else o = std::to_string(++v)+"\n"; }
    else if (s==")bogus") o = "Unknown REPL command\n";
    else if (s==")ex a.bqn") o = "file\n(REPL)\n"; 
    if (o=="?") { return; }
    want+= o; err|= e; if (l.exits>=0) { over = true; st = l.exits; } }
  Res r = cli({"-s"}, in); ex.op(); ex.compared(); string what = "the lines "+show(Val::str(string(in).c_str())); if (r.st!=st) ex.fail("%s\n  end with status %d, expected %d (%s)", what.c_str(), r.st, st, show(Val::str(string(r.err).c_str())).substr(0, 300).c_str()); if (r.out!=want) ex.fail("%s\n  print %s, expected %s (and %s)", what.c_str(), show(Val::str(string(r.out).c_str())).c_str(), show(Val::str(string(want).c_str())).c_str(), show(Val::str(string(r.err).c_str())).substr(0, 300).c_str()); if ((r.err.size()>0)!=err) ex.fail("%s\n  %s: %s", what.c_str(), err? "say nothing of the error" : "write to the error stream", show(Val::str(string(r.err).c_str())).c_str());
  ex.state(hashS(in)); ex.outcome(hashS(want)); ex.tick();
}
// --- the program's input, line by line
static void inputLines(Ex& ex) { // •GetLine on every text
  static const vector<string> C = {"a", "\r", "\n", string("\0", 1), "é", "𝕩"}; int n = ex.pick(ex.thorough? 8 : 6); string in; for (int k = 0; k < n; k++) in+= C[ex.pick(n>5? 4 : 6)]; bool longer = n<3 && ex.pick(2); if (longer) { string l; for (int k = 0; k < 70000; k++) l+= char('a'+k%26); in+= l; in+= C[2]; in+= "b"; }
  string want = "⟨", rest = in; bool first = true; int gets = n+3; for (int k = 0; k < gets; k++) { if (!first) want+= ", "; first = false; if (rest.empty()) { want+= "0"; continue; } size_t p = rest.find('\n'); string l = rest.substr(0, p); rest = p==string::npos? "" : rest.substr(p+1); if (l.size() && l.back()=='\r') l.pop_back(); want+= "⟨"; bool f = true; for (size_t q = 0; q < l.size();) { uint32_t ch = (unsigned char)l[q]; if (ch==0xc3) { ch = 0xe9; q+= 2; } else if (ch==0xf0) { ch = 0x1d569; q+= 4; } else q++; want+= (f? "" : ", ")+std::to_string(ch); f = false; } want+= "⟩"; }
  want+= "⟩\n"; string code = "(-⟜@)¨⟨"; for (int k = 0; k < gets; k++) code+= k? ",•GetLine@" : "•GetLine@"; code+= "⟩"; Res r = cli({"-p", code}, in); ex.op(); ex.compared(); string what = "bqn -p '"+code+"'\n  with the input "+show(Val::str(string(in.substr(0, 40)).c_str())); for (auto& ch : in) if (!ch) { what+= " (with NULs)"; break; } if (longer) what+= " (and a line of 70000)";
  if (r.st || r.out!=want || r.err.size()) ex.fail("%s\n  prints %s, expected %s (status %d, %s)", what.c_str(), r.out.substr(0, 300).c_str(), want.substr(0, 300).c_str(), r.st, r.err.substr(0, 200).c_str());
  ex.state(hashS(in)); ex.outcome(hashS(want)); ex.tick();
}
static void interleaved(Ex& ex) { // lines of the interactive mode that read the next line themselves
  static const vector<string> A = {"≢•GetLine@", "1+1", "≢•GetLine@‿", "•Out •GetLine@", "", "1+'a'+'b'", "(≢•GetLine@) ⊣ •Out •GetLine@", "•Out ⊑⟨•GetLine@,•GetLine@⟩"}; int n = 1+ex.pick(ex.thorough? 5 : 4); vector<string> l; string in; bool ends = false; for (int k = 0; k < n; k++) { l.push_back(A[ex.pick(8)]); if (l.back()==A[2]) l.back() = "é 𝕩"; in+= l.back(); if (k+1<n || (ends = ex.pick(2))) in+= "\n"; }
  string want; int err = 0; size_t i = 0; bool uns = false; auto next = [&](string* s) { if (i>=l.size() || (i+1==l.size() && !ends && l[i].empty())) return false; *s = l[i++]; return true; }; auto len = [](const string& s) { int k = 0; for (unsigned char ch : s) if ((ch&0xC0)!=0x80) k++; return k; };
  for (string s, a, b; next(&s);) { if (s=="" ) continue; if (s==A[0]) { if (next(&a)) want+= strf("⟨%d⟩\n", len(a)); else want+= "⟨⟩\n"; } else if (s==A[1]) want+= "2\n"; else if (s==A[5]) err = 1; else if (s==A[3]) { if (next(&a)) want+= a+"\n\""+a+"\"\n"; else uns = true; if (a.find('"')!=string::npos) uns = true; } else if (s==A[6]) { bool x = next(&a); if (!x) uns = true; want+= a+"\n"; if (next(&b)) want+= strf("⟨%d⟩\n", len(b)); else want+= "⟨⟩\n"; } else if (s==A[7]) { bool x = next(&a); next(&b); if (!x) uns = true; want+= a+"\n\""+a+"\"\n"; } else err = 1; if (a=="" && (s==A[3] || s==A[7])) { size_t p = want.rfind("\"\"\n"); if (p!=string::npos) want.replace(p, 3, "⟨⟩\n"); } a = b = ""; if (uns) return; }
  Res r = cli({"-s"}, in); ex.op(); ex.compared(); string what = "the interactive mode with the input "+show(Val::str(string(in).c_str())); if (r.st || r.out!=want || (r.err.size()>0)!=err) ex.fail("%s\n  prints %s, expected %s (status %d, %s)", what.c_str(), r.out.c_str(), want.c_str(), r.st, r.err.substr(0, 300).c_str());
  ex.state(hashS(in)); ex.outcome(hashS(want)); ex.tick();
}
int main(int argc, char** argv) {
  mc::Config c; c.property = "C35"; c.useStates = true; c.assumptions = {"the program is the tree's main.c, called as a function of a forked process of its own"};
  c.init = []() { char b[] = "/dev/shm/mc-C35-XXXXXX"; scratch = mkdtemp(b); owner = getpid(); atexit([]() { if (getpid()==owner) fs::remove_all(scratch); }); auto put = [](const char* n, const string& s) { FILE* f = fopen((scratch+"/"+n).c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }; put("a.bqn", AB); put("b.bqn", BB); put("c.bqn", CB); };
  c.sc = {{"words", 2, words3, 3, "every sequence of up to 2 of 32 and 3 of 22 words on the command line, 4 inputs where any is read"}, {"more", 2, words4, 3, "an option and every 3 (4) of 14 words after it"}, {"arguments", 2, arguments, 3, "12 ways to start a program × up to 4 (5) words for it of 7, and 300 more"}, {"lines", 2, lines, 3, "every sequence of up to 3 (4) of 21 lines of the interactive mode, three kinds of line ends"},
          {"input", 2, inputLines, 3, "•GetLine on every text of up to 5 of 6 characters (7 of 4), line ends and NULs among them, and lines of 70000"}, {"reading", 2, interleaved, 3, "every sequence of up to 4 (5) of 8 interactive lines, some of which read the lines after them"}};
  return mainMC(argc, argv, c);
}
