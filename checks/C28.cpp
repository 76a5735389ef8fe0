// •SH: a process gets all of its input and arguments, and all that it writes comes back, whatever the timing.
#include "gen.hpp"
#include <poll.h>
#include <spawn.h>
#include <cerrno>
using namespace bq;
static const char PAT[] = "a\xc3\xa9" "b\xf0\x9d\x94\xbd"; // 8 bytes, 4 characters
static string pat(size_t from, size_t n) { string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = PAT[(from+i)%8]; return s; }
static uint64_t sum(const string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h^c)*1099511628211ull; return h; }
static string report(const string& in) { return mc::strf("[%zu %llx]", in.size(), (unsigned long long)sum(in)); }
static Val textV(const string& s) { vector<Val> v; for (size_t i = 0; i < s.size();) { unsigned c = (unsigned char)s[i]; int l = c<0x80? 1 : c>>5==6? 2 : c>>4==14? 3 : 4; uint32_t u = l==1? c : c&(0x7f>>l); for (int k = 1; k < l; k++) u = u<<6|((unsigned char)s[i+k]&63); v.push_back(Val::chr(u)); i+= l; } return Val::vec(v); }
static Val bytesV(const string& s) { vector<Val> v; for (unsigned char c : s) v.push_back(Val::chr(c)); return Val::vec(v); }
// what a process does: r read n bytes, a read to the end, o/e write n bytes to output/error, s say what was read, i/O/E close input/output/error, x exit, k be killed
struct Op { char c; size_t n; };
static string showOps(const vector<Op>& v) { string r; for (auto& o : v) { r+= r.size()? " " : ""; r+= o.c; if (strchr("roexk", o.c)) r+= std::to_string(o.n); } return r; }
struct Want { string out, err; int code = 0; };
static Want ideal(const vector<Op>& p, const string& in) { Want w; size_t pos = 0; string got; bool open[3] = {true, true, true}; auto wr = [&](int fd, const string& s) { if (open[fd]) (fd==1? w.out : w.err)+= s; }; size_t no = 0, ne = 0; for (auto& o : p) { if (o.c=='r' && open[0]) { size_t k = std::min(o.n, in.size()-pos); got+= in.substr(pos, k); pos+= k; } else if (o.c=='a' && open[0]) { got+= in.substr(pos); pos = in.size(); } else if (o.c=='o') { wr(1, pat(no, o.n)); no+= o.n; } else if (o.c=='e') { wr(2, pat(ne, o.n)); ne+= o.n; } else if (o.c=='s') wr(1, report(got)); else if (o.c=='i') open[0] = false; else if (o.c=='O') open[1] = false; else if (o.c=='E') open[2] = false; else if (o.c=='x') { w.code = o.n; return w; } else if (o.c=='k') { w.code = 128+o.n; return w; } } return w; }
// --- a simulated kernel: pipes, one process, a scheduler
static const int CAP = 3000, PAGE = 1000, FD0 = 1000;
struct Pipe { string b; };
struct End { int p; bool wr; bool operator==(const End& o) const { return p==o.p && wr==o.wr; } };
struct Kernel {
  Ex& ex; vector<Pipe> pipes; std::map<int, End> par, kid; std::map<int, bool> nonblock; vector<std::pair<int,int>> acts; // dup2 from,to; close: -1,fd
  vector<Op> prog; size_t pc = 0, done = 0, no = 0, ne = 0; string got; bool spawned = false, ended = false, waited = false; int status = 0; int eager = 0, spins = 0; string hist; int failPipe = -1; bool failSpawn = false; int made = 0; uint64_t moved = 0; vector<string> args; int interrupts = 0;
  Kernel(Ex& e) : ex(e) {}
  bool has(int p, bool wr) { for (auto& [f, e] : par) if (e==End{p, wr}) return true; for (auto& [f, e] : kid) if (e==End{p, wr}) return true; return false; }
  void end(int st) { ended = true; status = st; kid.clear(); }
  // one step of the process: false if it cannot go on now
  bool step(bool really) {
    if (!spawned || ended) return false; if (pc==prog.size()) { if (really) end(0); return true; }
    const Op& o = prog[pc]; auto next = [&]() { pc++; done = 0; };
    if (o.c=='r' || o.c=='a') { auto i = kid.find(0); if (i==kid.end()) { if (really) next(); return true; } auto& b = pipes[i->second.p].b; if (b.empty()) { if (has(i->second.p, true)) return o.c=='r' && done==o.n && (really? (next(), true) : true); if (really) next(); return true; } if (!really) return true; size_t k = o.c=='a'? b.size() : std::min(b.size(), o.n-done); got+= b.substr(0, k); b.erase(0, k); done+= k; if (o.c=='r' && done==o.n) next(); return true; }
    if (o.c=='o' || o.c=='e' || o.c=='s') { int fd = o.c=='e'? 2 : 1; auto i = kid.find(fd); string all = o.c=='s'? report(got) : pat(o.c=='o'? no : ne, o.n); if (i==kid.end()) { if (really) next(); return true; } if (!has(i->second.p, false)) { if (really) end(SIGPIPE); return true; } auto& b = pipes[i->second.p].b; size_t room = CAP-b.size(); if (all.size()==done) { if (really) next(); return true; } if (!room) return false; if (!really) return true; size_t k = std::min(room, all.size()-done); b+= all.substr(done, k); done+= k; if (done==all.size()) { if (o.c=='o') no+= o.n; if (o.c=='e') ne+= o.n; next(); } return true; }
    if (!really) return true;
    if (o.c=='i') kid.erase(0); else if (o.c=='O') kid.erase(1); else if (o.c=='E') kid.erase(2); else if (o.c=='x') { end(o.n<<8); return true; } else if (o.c=='k') { end(o.n); return true; }
    next(); return true;
  }
  int run(int k) { int n = 0; while (n<k && step(false)) { step(true); n++; spins = 0; } return n; }
  int able() { Kernel c = copy(); return c.run(64); }
  Kernel copy() { Kernel c(ex); c.pipes = pipes; c.par = par; c.kid = kid; c.prog = prog; c.pc = pc; c.done = done; c.no = no; c.ne = ne; c.got = got; c.spawned = spawned; c.ended = ended; return c; }
  void sched(const char* what) { // the process may take any number of steps here
    int m = able(); if (m) { int dflt = eager? m : 0, d = ex.deviate(m+1), k = d==0? dflt : d-1<dflt? d-1 : d; if (d) hist+= mc::strf(" ⋄ at %s the process takes %d steps", what, k); run(k); }
    uint64_t h = pc*31+done; for (auto& p : pipes) h = h*1000003+p.b.size(); h = h*31+par.size()*7+kid.size()*3+ended; ex.state(h*8+eager); ex.op();
  }
  [[noreturn]] void dead(const char* what) { ex.fail("%s\n  waits forever in %s%s", title.c_str(), what, hist.c_str()); }
  string title;
};
static Kernel* K;
struct Stop { mc::Failure f; }; static mc::Failure pending; static bool failed; // (an exception must not pass through the C code)
template<class F> static long guard(F f) { try { return f(); } catch (mc::Failure& e) { pending = e; failed = true; K = nullptr; extern void leaveC(); leaveC(); abort(); } }
#include <setjmp.h>
static jmp_buf out; void leaveC() { longjmp(out, 1); }
extern "C" {
  int __real_pipe(int*); int __real_poll(pollfd*, nfds_t, int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_close(int); pid_t __real_waitpid(pid_t, int*, int); int __real_fcntl(int, int, ...); int __real_posix_spawnp(pid_t*, const char*, const posix_spawn_file_actions_t*, const posix_spawnattr_t*, char* const*, char* const*); int __real_posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t*, int, int); int __real_posix_spawn_file_actions_addclose(posix_spawn_file_actions_t*, int);
  int __wrap_pipe(int* f) { if (!K) return __real_pipe(f); if (K->made==K->failPipe) { errno = EMFILE; return -1; } int p = K->made++; K->pipes.push_back({}); f[0] = FD0+2*p; f[1] = f[0]+1; K->par[f[0]] = {p, false}; K->par[f[1]] = {p, true}; return 0; }
  int __wrap_fcntl(int fd, int c, ...) { va_list a; va_start(a, c); long v = va_arg(a, long); va_end(a); if (K && fd>=FD0) { if (c==F_SETFL) K->nonblock[fd] = v&O_NONBLOCK; return 0; } return __real_fcntl(fd, c, v); }
  int __wrap_posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t* t, int a, int b) { if (K) { K->acts.push_back({a, b}); return 0; } return __real_posix_spawn_file_actions_adddup2(t, a, b); }
  int __wrap_posix_spawn_file_actions_addclose(posix_spawn_file_actions_t* t, int a) { if (K) { K->acts.push_back({-1, a}); return 0; } return __real_posix_spawn_file_actions_addclose(t, a); }
  int __wrap_posix_spawnp(pid_t* pid, const char* f, const posix_spawn_file_actions_t* a, const posix_spawnattr_t* at, char* const* av, char* const* env) {
    if (!K) return __real_posix_spawnp(pid, f, a, at, av, env);
    if (K->failSpawn) return ENOENT; K->kid = K->par; for (auto& [x, y] : K->acts) { if (x>=0) { if (K->kid.count(x)) K->kid[y] = K->kid[x]; else return EBADF; } else K->kid.erase(y); } for (char* const* q = av; *q; q++) K->args.push_back(*q); K->spawned = true; *pid = 1<<29; return 0;
  }
  int __wrap_poll(pollfd* p, nfds_t n, int tm) {
    if (!K) return __real_poll(p, n, tm);
    return guard([&]() -> long { K->sched("poll"); if (K->interrupts && K->ex.deviate(2)) { K->interrupts--; K->hist+= " ⋄ poll is interrupted"; errno = EINTR; return -1; }
      for (int forced = 0;; forced++) { int r = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd<0) continue; auto e = K->par.find(p[i].fd); if (e==K->par.end()) K->ex.fail("%s\n  polls a descriptor it has closed%s", K->title.c_str(), K->hist.c_str()); auto& q = K->pipes[e->second.p]; short v = 0; if (e->second.wr) { if ((int)q.b.size()<=CAP-PAGE) v|= POLLOUT; if (!K->has(e->second.p, false)) v|= POLLERR; } else { if (q.b.size()) v|= POLLIN; if (!K->has(e->second.p, true)) v|= POLLHUP; } p[i].revents = v&(p[i].events|POLLERR|POLLHUP); r+= p[i].revents!=0; }
        if (r) { if (++K->spins>24) { if (!K->run(1)) K->dead("a busy loop"); if (K->spins>20) K->ex.fail("%s\n  polls again and again while nothing can be done%s", K->title.c_str(), K->hist.c_str()); } return r; }
        if (!K->run(1)) K->dead("poll"); } });
  }
  ssize_t __wrap_read(int fd, void* b, size_t n) {
    if (!K || fd<FD0) return __real_read(fd, b, n);
    return guard([&]() -> long { K->sched("read"); for (;;) { auto e = K->par.find(fd); if (e==K->par.end()) { errno = EBADF; return -1; } auto& q = K->pipes[e->second.p].b; if (q.size()) { size_t k = std::min(n, q.size()); memcpy(b, q.data(), k); q.erase(0, k); K->spins = 0; return k; } if (!K->has(e->second.p, true)) return 0; if (K->nonblock[fd]) { errno = EAGAIN; return -1; } if (!K->run(1)) K->dead("read"); } });
  }
  ssize_t __wrap_write(int fd, const void* b, size_t n) {
    if (!K || fd<FD0) return __real_write(fd, b, n);
    return guard([&]() -> long { K->sched("write"); size_t done = 0; for (;;) { auto e = K->par.find(fd); if (e==K->par.end()) { errno = EBADF; return -1; } if (n==0) return 0; if (!K->has(e->second.p, false)) { struct sigaction s; sigaction(SIGPIPE, nullptr, &s); sigset_t m; sigprocmask(SIG_SETMASK, nullptr, &m); if (s.sa_handler==SIG_DFL && !sigismember(&m, SIGPIPE)) K->ex.fail("%s\n  ends the interpreter with SIGPIPE%s", K->title.c_str(), K->hist.c_str()); errno = EPIPE; return -1; } auto& q = K->pipes[e->second.p].b; size_t room = CAP-q.size(); bool nb = K->nonblock[fd]; if (room && !(n<=(size_t)PAGE && room<n)) { size_t k = std::min(room, n-done); q.append((const char*)b+done, k); done+= k; K->spins = 0; if (nb || done==n) return done; } else if (nb) { errno = EAGAIN; return -1; } if (!K->run(1)) K->dead("write"); } });
  }
  int __wrap_close(int fd) { if (!K || fd<FD0) return __real_close(fd); return guard([&]() -> long { K->sched("close"); if (!K->par.erase(fd)) K->ex.fail("%s\n  closes a descriptor twice%s", K->title.c_str(), K->hist.c_str()); return 0; }); }
  pid_t __wrap_waitpid(pid_t pid, int* st, int o) { if (!K || pid!=1<<29) return __real_waitpid(pid, st, o); return guard([&]() -> long { K->sched("waitpid"); if (K->interrupts && K->ex.deviate(2)) { K->interrupts--; K->hist+= " ⋄ waitpid is interrupted"; errno = EINTR; return -1; } while (!K->ended) if (!K->run(1)) K->dead("waitpid"); if (K->waited) { errno = ECHILD; return -1; } K->waited = true; if (st) *st = K->status; return pid; }); }
}
static BV opts(int kind, const string& in, bool raw, const Rep* rep) { // kind 0 none 1 stdin 2 raw 3 both
  static const char* S[] = {"stdin", "raw"}; BV v[2]; int n = 0; if (kind&1) v[n++] = toB(raw? bytesV(in) : textV(in)); if (kind&2) v[n++] = cb_mknum(raw); return cb_ns(n, kind==2? S+1 : S, v);
}
static void checkResult(Ex& ex, const string& title, int rc, BV r, const Want& w, bool raw) {
  if (rc) ex.fail("%s\n  gives an error: %s", title.c_str(), cb_err()); Val e = Val::vec({Val((double)w.code), raw? bytesV(w.out) : textV(w.out), raw? bytesV(w.err) : textV(w.err)}); ex.compared();
  if (!same(r, e)) { Val g = fromB(r); auto part = [](const Val& v, int i) { return v.isArr() && v.ia()==3? v.it()[i] : Val(0); }; string d; for (int i = 0; i < 3; i++) if (!matchV(part(g, i), part(e, i))) d+= mc::strf("%s %s%s, expected %s%s", i==0? "code" : i==1? "output" : "errors", show(part(g, i)).substr(0, 60).c_str(), part(g, i).isArr()? mc::strf(" (%zu)", part(g, i).ia()).c_str() : "", show(part(e, i)).substr(0, 60).c_str(), part(e, i).isArr()? mc::strf(" (%zu)", part(e, i).ia()).c_str() : ""); ex.fail("%s\n  gives %s", title.c_str(), d.c_str()); }
  cb_dec(r);
}
static vector<Op> script(Ex& ex, int n, const vector<Op>& A) { vector<Op> v; for (int k = 0; k < n; k++) { int i = ex.pick(A.size()+1); if (i==0) break; v.push_back(A[i-1]); if (strchr("xk", v.back().c)) break; } return v; }
static void simulate(Ex& ex, const vector<Op>& prog, int kind, size_t inN, bool raw, int budget) {
  string in = kind&1? pat(0, inN) : ""; Kernel k(ex); k.prog = prog; k.eager = ex.pick(2); k.interrupts = 1; ex.budget = budget; k.title = mc::strf("•SH with %s%s of a process doing «%s», %s by default", kind&1? mc::strf("%zu bytes of input", in.size()).c_str() : "no input", raw? " (raw)" : "", showOps(prog).c_str(), k.eager? "running ahead" : "lagging behind");
  Want w = ideal(prog, in); BV f = fnOf("•SH"), x = toB(Val::vec({Val::str("cmd"), Val::str("arg é")})), o = kind? opts(kind, in, raw, nullptr) : 0, r = 0; volatile int rc = 0; failed = false; int dep = cb_gsdepth();
  if (setjmp(out)) { K = nullptr; throw pending; } // (abandons the call; the process of this run is not used further after a failure)
  K = &k; rc = kind? cb_c2(f, o, x, &r) : cb_c1(f, x, &r); K = nullptr; (void)dep;
  ex.op(); checkResult(ex, k.title+k.hist, rc, r, w, raw); if (k.par.size()) ex.fail("%s%s\n  leaves %zu descriptors open", k.title.c_str(), k.hist.c_str(), k.par.size()); if (!k.waited) ex.fail("%s%s\n  does not wait for the process", k.title.c_str(), k.hist.c_str()); if (k.args!=vector<string>{"cmd", "arg é"}) ex.fail("%s\n  passes wrong arguments", k.title.c_str());
  struct sigaction s; sigaction(SIGPIPE, nullptr, &s); if (s.sa_handler!=SIG_DFL) ex.fail("%s%s\n  leaves SIGPIPE ignored", k.title.c_str(), k.hist.c_str()); ex.outcome(sum(w.out)+w.code*7+sum(w.err)*3);
}
static const vector<Op> ALL = {{'a', 0}, {'s', 0}, {'o', 8}, {'i', 0}, {'x', 3}, {'O', 0}, {'e', 1504}, {'E', 0}, {'o', 4000}, {'r', 8}, {'r', 2000}, {'k', 9}, {'e', 4000}, {'o', 1024}};
static const vector<Op> FEW = {{'a', 0}, {'o', 4000}, {'e', 4000}, {'i', 0}, {'O', 0}, {'E', 0}, {'s', 0}};
static void sim3(Ex& ex) { vector<Op> p = script(ex, ex.thorough? 4 : 3, ALL); int kind = ex.pick(2); size_t n = kind? ex.of(ex.thorough? vector<size_t>{0, 8, 1000, 3000, 3008, 8000} : vector<size_t>{0, 8, 3000, 8000}) : 0; simulate(ex, p, kind, n, false, ex.thorough? 2 : 1); }
static void sim4(Ex& ex) { vector<Op> p = script(ex, ex.thorough? 6 : 4, FEW); size_t n = ex.of(vector<size_t>{8, 4000}); simulate(ex, p, 3, n, true, ex.thorough? 2 : 1); }
static void deep(Ex& ex) { static const vector<vector<Op>> P = {{{'o', 8}, {'e', 8}}, {{'a', 0}, {'s', 0}}, {{'r', 8}}, {{'i', 0}, {'o', 8}}, {{'O', 0}, {'E', 0}, {'a', 0}, {'x', 5}}, {{'o', 4000}, {'e', 4000}}, {{'e', 4000}, {'o', 4000}, {'a', 0}, {'s', 0}}, {{'r', 2000}, {'o', 1504}, {'r', 2000}, {'o', 1504}, {'s', 0}}, {{'O', 0}, {'e', 4000}}, {{'k', 15}}}; const auto& p = ex.of(P); size_t n = ex.of(vector<size_t>{0, 8, 4000}); simulate(ex, p, 1, n, false, ex.thorough? 5 : 3); }
static void faults(Ex& ex) { // no pipe, no process: an error, and nothing left behind
  Kernel k(ex); int f = ex.pick(4); if (f<3) k.failPipe = f; else k.failSpawn = true; int kind = ex.pick(2); bool raw = ex.flag(); BV x = toB(Val::vec({Val::str("cmd")})), o = kind? opts(3, pat(0, 80), raw, nullptr) : 0, r; k.title = f<3? mc::strf("•SH when pipe %d cannot be made", f) : "•SH when the process cannot be started"; int rc; if (setjmp(out)) throw pending; K = &k; rc = kind? cb_c2(fnOf("•SH"), o, x, &r) : cb_c1(fnOf("•SH"), x, &r); K = nullptr; ex.op(); ex.compared(); if (!rc) ex.fail("%s succeeds", k.title.c_str()); if (k.par.size()) ex.fail("%s leaves %zu descriptors open", k.title.c_str(), k.par.size());
}
static void refused(Ex& ex) { // what is no command or no input is refused before a process is started
  static const char* S[] = {"stdin", "raw"}; vector<Val> badX = {Val(1), Val::str(""), Val::vec({}), Val::vec({Val(1)}), Val::vec({Val::str("cmd"), Val::vec({Val(1)})}), Val::vec({Val::str("cmd"), Val(5)}), Val::arr({1, 1}, {Val::str("cmd")}), Val::vec({Val::str("cmd"), Val::arr({1, 1}, {Val::chr('a')})})}; vector<Val> badIn = {Val(1), Val::vec({Val::str("ab")}), Val::vec({Val::chr('a'), Val::vec({Val(1)})})};
  int m = ex.pick(3); Kernel k(ex); k.prog = {{'a', 0}}; BV r, x, o = 0; string what; if (m==0) { Val v = ex.of(badX); x = toB(v); what = "•SH "+show(v); } else { x = toB(Val::vec({Val::str("cmd")})); BV v[2]; Val in = m==1? ex.of(badIn) : Val::str("a"); v[0] = toB(in); v[1] = cb_mknum(m==1? ex.pick(2) : 2); o = cb_ns(2, S, v); what = "•SH with the input "+show(in)+(m==2? " and raw⇐2" : ""); } int rc; if (setjmp(out)) throw pending; k.title = what; K = &k; rc = o? cb_c2(fnOf("•SH"), o, x, &r) : cb_c1(fnOf("•SH"), x, &r); K = nullptr; ex.op(); ex.compared(); if (!rc) ex.fail("%s succeeds", what.c_str()); if (k.par.size()) ex.fail("%s\n  leaves %zu descriptors open", what.c_str(), k.par.size()); if (k.spawned) ex.fail("%s\n  fails after it has started the process", what.c_str());
}
// --- the same with real processes
static int child(int argc, char** argv) {
  if (!strcmp(argv[2], "args")) { string s; for (int i = 3; i < argc; i++) s+= mc::strf("%zu:", strlen(argv[i]))+argv[i]; struct sigaction a; sigaction(SIGPIPE, nullptr, &a); s+= a.sa_handler==SIG_DFL? "D" : "I"; int n = 0; for (int i = 3; i < 200; i++) n+= __real_fcntl(i, F_GETFD)>=0; s+= mc::strf("%d", n); return write(1, s.data(), s.size())!=(ssize_t)s.size(); }
  string got; size_t no = 0, ne = 0; auto all = [](int fd, const string& s) { for (size_t i = 0; i < s.size();) { ssize_t k = write(fd, s.data()+i, s.size()-i); if (k<=0) break; i+= k; } };
  for (int i = 3; i < argc; i++) { char c = argv[i][0]; size_t n = strtoul(argv[i]+1, nullptr, 10); if (c=='r' || c=='a') { static char b[70000]; size_t left = c=='a'? ~(size_t)0 : n; while (left) { ssize_t k = read(0, b, std::min(left, sizeof b)); if (k<=0) break; got.append(b, k); left-= k; } } else if (c=='o') { all(1, pat(no, n)); no+= n; } else if (c=='e') { all(2, pat(ne, n)); ne+= n; } else if (c=='s') all(1, report(got)); else if (c=='i') close(0); else if (c=='O') close(1); else if (c=='E') close(2); else if (c=='x') _exit(n); else if (c=='k') { raise(n); _exit(99); } }
  _exit(0);
}
static string self() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b-1); b[n] = 0; return b; }
static int fds(bool inherited) { int n = 0; for (int i = inherited? 3 : 0; i < 200; i++) { int f = __real_fcntl(i, F_GETFD); n+= f>=0 && !(inherited && (f&FD_CLOEXEC)); } return n; }
static void real(Ex& ex) {
  static const vector<Op> R = {{'a', 0}, {'s', 0}, {'o', 8}, {'i', 0}, {'x', 3}, {'O', 0}, {'e', 1504}, {'E', 0}, {'o', 200000}, {'r', 8}, {'k', 9}, {'e', 70000}}; vector<Op> p = script(ex, ex.thorough? 3 : 2, R); int kind = ex.pick(4); string in = kind&1? pat(0, ex.of(vector<size_t>{0, 8, 65536, 200000})) : ""; bool raw = kind>=2 && ex.flag();
  vector<Val> av = {textV(self()), Val::str("--child"), Val::str("run")}; for (auto& o : p) av.push_back(textV(mc::strf("%c%zu", o.c, o.n))); Want w = ideal(p, in); string title = mc::strf("•SH with %s%s of a real process doing «%s»", kind&1? mc::strf("%zu bytes of input", in.size()).c_str() : "no input", raw? " (raw)" : "", showOps(p).c_str()); int had = fds(false); BV r; BV x = toB(Val::vec(av)), o = kind? opts(kind, in, raw, nullptr) : 0; int rc = kind? cb_c2(fnOf("•SH"), o, x, &r) : cb_c1(fnOf("•SH"), x, &r); ex.op(); checkResult(ex, title, rc, r, w, raw); if (fds(false)!=had) ex.fail("%s\n  leaves descriptors open", title.c_str()); if (waitpid(-1, nullptr, WNOHANG)!=-1 || errno!=ECHILD) ex.fail("%s\n  leaves a process behind", title.c_str()); ex.state(sum(title)); ex.outcome(sum(title));
}
static void arguments(Ex& ex) {
  static const vector<string> A = {"", "a", "é b", "\"x'\\", "-n", "𝔽\n", "*"}; int n = ex.pick(4); vector<Val> av = {textV(self()), Val::str("--child"), Val::str("args")}; string want; for (int k = 0; k < n; k++) { string s = ex.of(A); av.push_back(textV(s)); want+= mc::strf("%zu:", s.size())+s; } want+= mc::strf("D%d", fds(true)); Val v = Val::vec(av); for (auto& rp : repsOf(v, 0)) { BV r; int rc = cb_c1(fnOf("•SH"), toB(v, rp), &r); ex.op(); checkResult(ex, "•SH "+show(v), rc, r, Want{want, "", 0}, false); }
  { int had = fds(false); BV r; int rc = cb_c1(fnOf("•SH"), toB(Val::vec({Val::str("/nonexistent/command")})), &r); if (!rc) ex.fail("•SH of a command that does not exist succeeds"); if (fds(false)!=had) ex.fail("•SH of a command that does not exist leaves descriptors open"); }
}
int main(int argc, char** argv) {
  if (argc>2 && !strcmp(argv[1], "--child")) return child(argc, argv);
  mc::Config c; c.property = "C28"; c.assumptions = {"pipes behave as on Linux, here with room for 3000 bytes", "the process started does not leave its pipes to others"};
  c.init = []() { cb_init(); fnOf("•SH"); signal(SIGPIPE, SIG_DFL); cb_gc(); };
  c.perRun = gcEvery(256);
  c.sc = {{"schedules", 4, sim3, 3, "every process of up to 3 (4) of 14 actions × no input and 4 (6) sizes, lagging behind or running ahead, every departure of 1 (2) from that at any system call, interruptions included"},
          {"raw", 4, sim4, 3, "every process of up to 4 (6) of 7 actions that fill pipes or close them, raw, every departure of 1 (2)"},
          {"deep", 3, deep, 3, "10 processes × 3 inputs, every 3 (5) departures"},
          {"faults", 2, faults, 3, "each step of starting a process fails"},
          {"refused", 2, refused, 3, "13 arguments that are no command or input"},
          {"processes", 3, real, 3, "every real process of up to 2 (3) of 12 actions × 4 inputs × options"},
          {"arguments", 2, arguments, 3, "every list of up to 3 of 7 arguments"}};
  return mainMC(argc, argv, c);
}
