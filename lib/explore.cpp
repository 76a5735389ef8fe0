#include "explore.hpp"
#include <algorithm>
namespace mc {
Shm* shm;
static string VERIF;
static string clean(const string& s) { // valid UTF-8
  string r; size_t i = 0, n = s.size();
  while (i<n) {
    unsigned char c = s[i]; size_t k = c<0x80? 1 : c>=0xC2 && c<0xE0? 2 : c>=0xE0 && c<0xF0? 3 : c>=0xF0 && c<0xF5? 4 : 0;
    bool ok = k && i+k<=n; for (size_t j = 1; ok && j<k; j++) ok = ((unsigned char)s[i+j]&0xC0)==0x80;
    if (ok && k==3) { unsigned q = (c&15)<<12 | ((unsigned char)s[i+1]&63)<<6; ok = q>=0x800 && !(q>=0xD800 && q<0xE000); }
    if (ok && k==4) { unsigned q = (c&7)<<18 | ((unsigned char)s[i+1]&63)<<12; ok = q>=0x10000 && q<=0x10FFFF; }
    if (ok) { r.append(s, i, k); i+= k; } else { r+= '?'; i++; }
  }
  return r;
}
static string jstr(const string& s0) {
  string s = clean(s0), r = "\"";
  for (unsigned char ch : s) {
    if (ch=='"' || ch=='\\') { r+= '\\'; r+= ch; }
    else if (ch=='\n') r+= "\\n";
    else if (ch<32) r+= strf("\\u%04x", ch);
    else r+= ch;
  }
  return r+"\"";
}
struct Known { string sig, what; };
static vector<Known> known;
static void loadKnown(const string& prop) { // known_findings.txt: property<TAB>signature<TAB>what fails
  FILE* f = fopen((VERIF+"/known_findings.txt").c_str(), "r");
  if (!f) return;
  char* line = nullptr; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    string l = line; while (!l.empty() && (l.back()=='\n'||l.back()=='\r')) l.pop_back();
    if (l.empty() || l[0]=='#' || l.rfind("fixed:",0)==0) continue;
    size_t a = l.find('\t'), b = a==string::npos? a : l.find('\t', a+1);
    if (b==string::npos) continue;
    if (l.substr(0,a)==prop) known.push_back({l.substr(a+1,b-a-1), l.substr(b+1)});
  }
  free(line); fclose(f);
}
static int knownIdx(const string& sig) { for (size_t i = 0; i < known.size() && i<256; i++) if (known[i].sig==sig) return i; return -1; }

static void recordFail(int scen, const Ex& ex, const Failure& f) {
  if (shm->failLock.exchange(1)) return;
  FailRec& r = shm->fail;
  r.scen = scen; r.len = std::min<size_t>(ex.pos, MAXC);
  for (int i = 0; i < r.len; i++) r.choices[i] = ex.c[i];
  snprintf(r.sig, sizeof r.sig, "%s", f.sig.c_str());
  snprintf(r.msg, sizeof r.msg, "%s", f.msg.c_str());
  r.used = 1;
  shm->nfail.fetch_add(1);
  shm->stop.store(1);
}

// exhaust one scenario, with work stealing over the choice prefixes of length D
// histClaims: only explore these prefixes, stop after the run with the given vector
static void explore(Config& cfg, int si, Worker* w, bool thorough, double deadline, const vector<uint32_t>* hist, uint64_t histRuns, string* histMsg) {
  Scenario& s = cfg.sc[si];
  ScStat& st = shm->sc[si];
  Ex ex; ex.thorough = thorough; ex.scen = si; ex.w = w; ex.st = &st; ex.D = s.D; ex.sharding = s.D>0;
  if (w) { w->scen.store(si); w->nclaims.store(0); w->runidx.store(0); }
  size_t hi = 0;
  auto claim = [&]() -> bool {
    if (hist) { if (hi>=hist->size()) return false; ex.claimed = (*hist)[hi++]; if (hi<hist->size()) {} return true; }
    ex.claimed = st.next.fetch_add(1);
    if (w) { int k = w->nclaims.load(); if (k<MAXCLAIM) w->claims[k] = ex.claimed; w->nclaims.store(k+1); w->runidx.store(0); }
    return true;
  };
  uint64_t runsInClaim = 0;
  double t0 = now();
  uint64_t runs = 0; uint64_t lastflush = 0;
  if (s.D>0) { if (!claim()) return; }
  else { if (!hist && st.next.fetch_add(1)!=0) return; }
  auto flush = [&]() { st.runs+= runs; st.nodes+= ex.nodes; st.ops+= ex.ops; st.cmp+= ex.cmps; st.errs+= ex.errs; runs=0; ex.nodes=ex.ops=ex.cmps=ex.errs=0; };
  while (true) {
    ex.pos = 0; ex.budget = 0; ex.sig.clear();
    uint64_t sn = ex.nodes, so = ex.ops, sc = ex.cmps;
    bool skipped = false;
    try {
      current = &ex; s.run(ex); if (cfg.after) cfg.after(ex);
    } catch (Skip&) { skipped = true; }
    catch (Failure& f) {
      int k = knownIdx(f.sig);
      if (hist) { *histMsg = f.msg; return; }
      if (k>=0 && f.sig!="divergence") shm->known[k].fetch_add(1);
      else { recordFail(si, ex, f); flush(); return; }
    }
    bool shortRun = s.D>0 && ex.pos < (size_t)s.D;
    bool mine = !skipped && (!shortRun || ex.prefixIdx==ex.claimed);
    if (mine) { runs++; runsInClaim++; if (w) { w->runidx.fetch_add(1, std::memory_order_relaxed); w->tick.fetch_add(1, std::memory_order_relaxed); } }
    else { ex.nodes = sn; ex.ops = so; ex.cmps = sc; }
    if (cfg.perRun && !skipped) cfg.perRun();
    if (hist && hi==hist->size() && runsInClaim>histRuns) return;
    // next vector
    ex.c.resize(ex.pos); ex.n.resize(ex.pos);
    size_t before = ex.c.size();
    while (!ex.c.empty() && ex.c.back()+1 >= ex.n.back()) { ex.c.pop_back(); ex.n.pop_back(); }
    if (ex.c.empty()) { st.total.store(ex.prefixIdx+1); break; }
    ex.c.back()++;
    if (mine || skipped) {} 
    ex.nodes++;
    if (s.D>0 && (ex.c.size()<=(size_t)s.D)) { // left this prefix
      if (ex.prefixIdx==ex.claimed) { runsInClaim = 0; if (!claim()) return; }
      ex.prefixIdx++;
    }
    if (((++lastflush)&255)==0) {
      if (shm->stop.load(std::memory_order_relaxed) && !hist) { flush(); return; }
      if (now() > deadline && !hist) { st.cut.store(1); flush(); return; }
      if (!hist) flush();
    }
  }
  flush();
  st.us.fetch_add((now()-t0)*1e6);
  st.finished.fetch_add(1);
}

// run one choice vector alone; returns "" if it passes
static string runOne(Config& cfg, int si, const vector<int>& ch, bool thorough, string* log, string* sig) {
  Ex ex; ex.thorough = thorough; ex.verbose = true; ex.replay = true; ex.scen = si;
  ex.c = ch; ex.n.assign(ch.size(), 0);
  current = &ex;
  try { cfg.sc[si].run(ex); if (cfg.after) cfg.after(ex); }
  catch (Failure& f) { if (log) *log = ex.log; if (sig) *sig = f.sig; return f.msg.empty()? "failed" : f.msg; }
  catch (Skip&) {}
  if (log) *log = ex.log;
  return "";
}
struct ChildRes { bool ok; bool crashed; string text; string log; string sig; };
static ChildRes inChild(std::function<string(string*, string*)> f, double limit, Config& cfg) {
  int p[2]; if (pipe(p)) abort();
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (!pid) {
    close(p[0]);
    setpgid(0,0);
    int nul = open("/dev/null", O_RDWR); dup2(nul, 1); dup2(nul, 2); dup2(nul, 0);
    if (cfg.perWorker) cfg.perWorker();
    string log, sig; string r = f(&log, &sig);
    string out = (r.empty()? string("P") : "F") + sig + "\n" + r + "\x01" + log;
    size_t o = 0; while (o<out.size()) { ssize_t k = write(p[1], out.data()+o, out.size()-o); if (k<=0) break; o+= k; }
    _exit(0);
  }
  close(p[1]);
  string out; double t0 = now(); bool to = false;
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  int status = 0; bool ended = false;
  while (true) {
    char buf[65536]; ssize_t k = read(p[0], buf, sizeof buf);
    if (k>0) { out.append(buf, k); continue; }
    if (k==0) break;
    if (now()-t0 > limit) { to = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); break; }
    if (!ended && waitpid(pid, &status, WNOHANG)==pid) { ended = true; }
    else if (ended) break;
    usleep(2000);
  }
  close(p[0]);
  if (!ended) waitpid(pid, &status, 0);
  kill(-pid, SIGKILL);
  ChildRes r{};
  if (to) { r.crashed = true; r.text = strf("does not finish within %.0f s", limit); r.sig="hang"; return r; }
  if (WIFSIGNALED(status)) { r.crashed = true; r.text = strf("the process is killed by signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status))); r.sig = "crash"; return r; }
  if (out.empty() || WEXITSTATUS(status)) { r.crashed = true; r.text = strf("the process exits with status %d", WEXITSTATUS(status)); r.sig = "crash"; return r; }
  r.ok = out[0]=='P';
  size_t nl = out.find('\n'); r.sig = out.substr(1, nl-1);
  size_t sep = out.find('\x01', nl); r.text = out.substr(nl+1, sep-nl-1); r.log = out.substr(sep+1);
  return r;
}
// the description of a crashing case, printed before the crash: run in verbose mode with the log going straight out
static std::string printable(const std::string& s) { // valid UTF-8 without control characters other than newlines
  std::string r; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; size_t n = c<0x80? 1 : (c>>5)==6? 2 : (c>>4)==14? 3 : (c>>3)==30? 4 : 0; bool ok = n && i+n<=s.size(); for (size_t j = 1; ok && j < n; j++) if (((unsigned char)s[i+j]>>6)!=2) ok = false; if (!ok || (n==1 && c<32 && c!='\n' && c!='\t') || c==127) { r+= '?'; i++; } else { r.append(s, i, n); i+= n; } }
  return r;
}

static string vecStr(const vector<int>& v) { string r; for (int x : v) r+= strf("%d ", x); return r; }

void (*configHook)(Config&); Ex* current;
int mainMC(int argc, char** argv, Config cfg) {
  if (configHook) configHook(cfg);
  // addresses must not differ between runs
  if (!getenv("MC_NOASLR")) {
    setenv("MC_NOASLR", "1", 1);
    int cur = personality(0xffffffff);
    if (cur!=-1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe", argv);
  }
  { char* v = getenv("VERIF_DIR"); VERIF = v? v : "/verif"; }
  bool thorough = false;
  string replayFile, only;
  int nw = cfg.workers? cfg.workers : sysconf(_SC_NPROCESSORS_ONLN);
  char* tv = getenv("VERIF_TIER"); if (tv && !strcmp(tv, "thorough")) thorough = true;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    if (a=="--thorough") thorough = true;
    else if (a=="--quick") thorough = false;
    else if (a=="--replay" && i+1<argc) replayFile = argv[++i];
    else if (a=="--only" && i+1<argc) only = argv[++i];
    else if (a=="--workers" && i+1<argc) nw = atoi(argv[++i]);
  }
  if (nw>MAXW) nw = MAXW;
  double T0 = now();
  struct rlimit rl; if (!getrlimit(RLIMIT_STACK, &rl)) {}
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  signal(SIGPIPE, SIG_IGN);
  shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (shm==MAP_FAILED) { perror("mmap"); return 3; }
  loadKnown(cfg.property);

  if (!replayFile.empty()) {
    FILE* f = fopen(replayFile.c_str(), "r"); if (!f) { perror("replay"); return 3; }
    string scen; vector<int> ch; vector<uint32_t> claims; uint64_t hruns = 0; bool hist = false;
    char* line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, f)>0) {
      string l = line; while (!l.empty() && l.back()=='\n') l.pop_back();
      auto nums = [&](size_t o) { vector<int> r; char* p = (char*)l.c_str()+o; while (*p) { char* e; long q = strtol(p,&e,10); if (e==p) break; r.push_back(q); p = e; } return r; };
      if (l.rfind("scenario ",0)==0) scen = l.substr(9);
      else if (l.rfind("tier ",0)==0) thorough = l.substr(5)=="thorough";
      else if (l.rfind("choices",0)==0) ch = nums(7);
      else if (l.rfind("claims",0)==0) { hist = true; for (int x : nums(6)) claims.push_back(x); }
      else if (l.rfind("runs",0)==0) hruns = nums(4)[0];
    }
    fclose(f);
    if (cfg.init) cfg.init();
    for (size_t i = 0; i < cfg.sc.size(); i++) if (cfg.sc[i].name==scen) {
      if (!hist) {
        printf("replaying scenario %s with choices %s\n", scen.c_str(), vecStr(ch).c_str()); fflush(stdout);
        if (cfg.perWorker) cfg.perWorker();
        string log, sig; string r = runOne(cfg, i, ch, thorough, &log, &sig);
        printf("%s", log.c_str());
        if (r.empty()) { printf("passes\n"); return 0; }
        printf("FAILS: %s\n", r.c_str()); return 1;
      } else {
        if (cfg.perWorker) cfg.perWorker();
        string m; explore(cfg, i, nullptr, thorough, 1e18, &claims, hruns, &m);
        if (m.empty()) { printf("passes\n"); return 0; }
        printf("FAILS: %s\n", m.c_str()); return 1;
      }
    }
    printf("no such scenario\n"); return 3;
  }

  if (cfg.init) cfg.init();
  double budget = thorough? cfg.budgetThorough : cfg.budgetQuick;
  double deadline = now() + budget;
  string outdir = VERIF+"/out"; mkdir(outdir.c_str(), 0777);
  vector<int> active;
  for (size_t i = 0; i < cfg.sc.size(); i++) if ((cfg.sc[i].tiers & (thorough?2:1)) && (only.empty() || cfg.sc[i].name==only)) active.push_back(i);

  int rc = 0; string violation; string note;
  for (int attempt = 0; attempt < 2; attempt++) {
    for (size_t i = 0; i < MAXSC; i++) { shm->sc[i].next = 0; shm->sc[i].runs = 0; shm->sc[i].nodes = 0; shm->sc[i].ops = 0; shm->sc[i].cmp = 0; shm->sc[i].errs = 0; shm->sc[i].cut = 0; shm->sc[i].finished = 0; shm->sc[i].us = 0; shm->sc[i].total = 0; }
    for (auto& x : shm->known) x = 0; for (auto& x : shm->user) x = 0;
    shm->stop = 0; shm->failLock = 0; shm->fail.used = 0;
    if (cfg.useStates) madvise((void*)shm->state, sizeof shm->state, MADV_REMOVE);
    fflush(stdout); fflush(stderr);
    vector<pid_t> pids(nw);
    for (int k = 0; k < nw; k++) {
      shm->w[k].tick = 0; shm->w[k].len = 0; shm->w[k].done = 0; shm->w[k].scen = -1;
      pid_t p = fork();
      if (!p) {
        setpgid(0,0);
        string lf = strf("%s/%s.w%d.log", outdir.c_str(), cfg.property.c_str(), k);
        int lg = open(lf.c_str(), O_RDWR|O_CREAT|O_TRUNC, 0666); if (lg>=0) { dup2(lg,1); dup2(lg,2); }
        int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
        if (cfg.perWorker) cfg.perWorker();
        for (int si : active) {
          if (shm->stop) break;
          if (now()>deadline) { shm->sc[si].cut = 1; continue; }
          explore(cfg, si, &shm->w[k], thorough, deadline, nullptr, 0, nullptr);
        }
        shm->w[k].done = 1;
        _exit(0);
      }
      pids[k] = p;
    }
    // supervise
    vector<uint64_t> last(nw, 0); vector<double> lastT(nw, now()); vector<bool> alive(nw, true);
    int left = nw; int bad = -1; string badWhy; bool badHang = false; double stopAt = 0;
    while (left) {
      for (int k = 0; k < nw; k++) if (alive[k]) {
        int stx; pid_t r = waitpid(pids[k], &stx, WNOHANG);
        if (r==pids[k]) {
          alive[k] = false; left--;
          kill(-pids[k], SIGKILL);
          if (!shm->w[k].done && bad<0 && !shm->fail.used && stopAt==0) {
            bad = k; badWhy = WIFSIGNALED(stx)? strf("the process is killed by signal %d (%s)", WTERMSIG(stx), strsignal(WTERMSIG(stx))) : strf("the process exits with status %d", WEXITSTATUS(stx));
            shm->stop = 1;
          }
          continue;
        }
        uint64_t t = shm->w[k].tick;
        if (t!=last[k]) { last[k] = t; lastT[k] = now(); }
        else if (now()-lastT[k] > cfg.hang) {
          kill(-pids[k], SIGKILL); kill(pids[k], SIGKILL);
          waitpid(pids[k], &stx, 0); alive[k] = false; left--;
          if (bad<0 && !shm->fail.used) { bad = k; badHang = true; badWhy = strf("no progress for %.0f s", cfg.hang); shm->stop = 1; }
        }
      }
      if (shm->stop && stopAt==0 && (bad>=0 || shm->fail.used)) stopAt = now();
      if (stopAt && now()-stopAt > 15) for (int k = 0; k < nw; k++) if (alive[k]) { kill(-pids[k], SIGKILL); kill(pids[k], SIGKILL); }
      usleep(3000);
    }
    if (bad<0 && !shm->fail.used) break; // nothing found
    // replay
    int si; vector<int> ch; string msg;
    vector<uint32_t> claims; uint64_t hruns = 0;
    if (shm->fail.used) { si = shm->fail.scen; ch.assign(shm->fail.choices, shm->fail.choices+shm->fail.len); msg = shm->fail.msg; for (int k=0;k<nw;k++) {} }
    else { Worker& w = shm->w[bad]; si = w.scen; int l = std::min<int>(w.len, MAXC); ch.assign(w.choices, w.choices+l); msg = badWhy; if (w.nclaims<=MAXCLAIM) { claims.assign(w.claims, w.claims+w.nclaims); hruns = w.runidx; } }
    if (si<0) { fprintf(stderr, "a worker ended before its first scenario: %s\n", msg.c_str()); return 3; }
    string log;
    ChildRes r = inChild([&](string* lg, string* sg) { return runOne(cfg, si, ch, thorough, lg, sg); }, badHang? 150 : 100, cfg);
    string how;
    if (!r.ok) { msg = r.text; log = r.log; how = "alone"; if (r.crashed) log = ""; }
    else if (!claims.empty()) {
      ChildRes h = inChild([&](string*, string*) { string m; explore(cfg, si, nullptr, thorough, 1e18, &claims, hruns, &m); return m; }, 300, cfg);
      if (!h.ok) { msg = h.text; how = "history"; }
    }
    string path = strf("%s/%s.replay.txt", outdir.c_str(), cfg.property.c_str());
    if (how.empty() && attempt==0) { note = strf("a failure was not reproduced by replaying it (scenario %s, choices %s: %s); exploring again", cfg.sc[si].name.c_str(), vecStr(ch).c_str(), msg.c_str()); printf("NOTE: %s\n", note.c_str()); continue; }
    FILE* f = fopen(path.c_str(), "w");
    if (f) {
      fprintf(f, "property %s\npart %s\nscenario %s\ntier %s\nchoices %s\n", cfg.property.c_str(), getenv("MC_PART")?getenv("MC_PART"):"0", cfg.sc[si].name.c_str(), thorough?"thorough":"quick", vecStr(ch).c_str());
      if (how=="history") { fprintf(f, "claims"); for (uint32_t x : claims) fprintf(f, " %u", x); fprintf(f, "\nruns %lu\n", hruns); }
      fprintf(f, "# %s\n", msg.c_str());
      string l2 = log; size_t p = 0; while (p<l2.size()) { size_t e = l2.find('\n', p); if (e==string::npos) e = l2.size(); fprintf(f, "# %s\n", l2.substr(p,e-p).c_str()); p = e+1; }
      fprintf(f, "# replay: python3 %s/checks/run.py %s --replay %s\n", VERIF.c_str(), cfg.property.c_str(), path.c_str());
      fclose(f);
    }
    printf("scenario %s: %s\n%s\n", cfg.sc[si].name.c_str(), printable(msg).c_str(), printable(log.substr(0,6000)).c_str());
    if (how.empty()) printf("(not reproduced by a lone replay, but seen in two explorations)\n");
    printf("VIOLATION property=%s replay=%s\n", cfg.property.c_str(), path.c_str());
    rc = 1; break;
  }

  // evidence
  uint64_t runs=0, nodes=0, ops=0, cmp=0; bool cut = false; string per;
  for (int si : active) { ScStat& s = shm->sc[si]; runs+= s.runs; nodes+= s.nodes; ops+= s.ops; cmp+= s.cmp; if (s.cut) cut = true;
    per+= strf("%s\n      {\"scenario\": %s, \"bound\": %s, \"executions\": %lu, \"compared\": %lu, \"complete\": %s, \"cpu_s\": %.1f}", per.empty()?"":",", jstr(cfg.sc[si].name).c_str(), jstr(cfg.sc[si].bound).c_str(), (unsigned long)s.runs, (unsigned long)s.cmp, s.cut||rc?"false":"true", s.us/1e6); }
  uint64_t outc = 0; for (auto& o : shm->outcome) outc+= __builtin_popcount(o);
  uint64_t sts = 0; if (cfg.useStates) for (auto& o : shm->state) sts+= __builtin_popcount(o);
  string samples; // the first, and one later, execution of each scenario
  int ns = 0;
  if (!rc) for (int si : active) {
    for (int round = 0; round < 2 && ns < 24; round++) {
      vector<int> ch;
      ChildRes r = inChild([&](string* lg, string* sg) {
        Ex ex; ex.thorough = thorough; ex.verbose = true; ex.scen = si;
        uint64_t seed = 12345*round;
        // round 1: a pseudo-random walk fixed by the seed, only to show what a case looks like
        struct H {}; string res;
        if (round==0) return runOne(cfg, si, {}, thorough, lg, sg);
        for (int tries = 0; tries < 30; tries++) {
          vector<int> v; ex.c.clear(); ex.n.clear();
          // extend the vector choice by choice, picking the middle alternative
          Ex e2; e2.thorough = thorough; e2.verbose = true; e2.replay = true; e2.scen = si;
          try { cfg.sc[si].run(e2); } catch (...) {}
          size_t q = 0;
          while (q < e2.n.size() && q < 40) {
            int want = (int)((seed*2654435761u >> 7) % e2.n[q]); seed = seed*6364136223846793005ull+1442695040888963407ull;
            vector<int> nc(e2.c.begin(), e2.c.begin()+q); nc.push_back(want);
            e2 = Ex(); e2.thorough = thorough; e2.verbose = true; e2.replay = true; e2.scen = si; e2.c = nc; e2.n.assign(nc.size(), 0);
            try { cfg.sc[si].run(e2); } catch (...) {}
            q++;
          }
          *lg = e2.log; if (!lg->empty()) return string();
        }
        return string();
      }, 20, cfg);
      string l = r.log; if (l.size()>700) l = l.substr(0,700)+"…";
      if (l.empty()) continue;
      samples+= strf("%s\n      %s", samples.empty()?"":",", jstr(cfg.sc[si].name+": "+l).c_str()); ns++;
    }
  }
  if (samples.empty()) samples = "\"see replay\"";
  string users; for (size_t i = 0; i < cfg.userNames.size(); i++) users+= strf(",\n    %s: %lu", jstr(cfg.userNames[i]).c_str(), (unsigned long)shm->user[i].load());
  string extra = cfg.extra? cfg.extra() : "";
  if (!extra.empty()) extra = ",\n    "+extra;
  string asum; for (auto& a : cfg.assumptions) asum+= (asum.empty()?"":", ")+jstr(a);
  mkdir((VERIF+"/evidence").c_str(), 0777);
  string epath = VERIF+"/evidence/"+cfg.property+".json";
  char* seed = getenv("VERIF_SEED");
  FILE* f = fopen((epath+".tmp").c_str(), "w");
  if (!f) { perror(epath.c_str()); return 3; }
  string main;
  if (cfg.level=="model_checking") main = strf("\"states\": %lu,\n    \"transitions\": %lu,\n    \"traces_validated_against_impl\": %lu", (unsigned long)(cfg.useStates? sts : nodes+active.size()), (unsigned long)ops, (unsigned long)runs);
  else main = strf("\"evaluations\": %lu,\n    \"distinct_nontrivial\": %lu,\n    \"rule\": %s,\n    \"choice_points\": %lu", (unsigned long)runs, (unsigned long)(cfg.useStates? sts : cmp), jstr(cfg.rule).c_str(), (unsigned long)nodes);
  fprintf(f, "{\n  \"property\": %s,\n  \"tier\": \"%s\",\n  \"seed\": %d,\n  \"level\": \"%s\",\n  \"coverage\": {\n    %s,\n    \"comparisons\": %lu,\n    \"distinct_outcomes\": %lu,\n    \"exhaustive\": %s%s%s,\n    \"scenarios\": [%s\n    ],\n    \"samples\": [%s\n    ]\n  },\n  \"assumptions\": [%s],\n  \"violations\": %d,\n  \"wall_s\": %.2f\n}\n",
    jstr(cfg.property).c_str(), thorough?"thorough":"quick", seed? atoi(seed) : 1, cfg.level.c_str(), main.c_str(), (unsigned long)cmp, (unsigned long)outc, cut||rc?"false":"true", users.c_str(), extra.c_str(), per.c_str(), samples.c_str(), asum.c_str(), rc, now()-T0);
  fclose(f);
  rename((epath+".tmp").c_str(), epath.c_str());
  for (size_t i = 0; i < known.size() && i<256; i++) if (!rc) {
    if (shm->known[i]) printf("KNOWN-FINDING: property=%s %s\n", cfg.property.c_str(), known[i].what.c_str());
    else printf("note: the listed finding \"%s\" did not show up\n", known[i].sig.c_str());
  }
  for (int si : active) { ScStat& s = shm->sc[si]; printf("%-28s %10lu executions %11lu comparisons %8.1f cpu-s%s\n", cfg.sc[si].name.c_str(), (unsigned long)s.runs, (unsigned long)s.cmp, s.us/1e6, s.cut?"  CUT by the time limit":""); }
  printf("%s %s: %lu executions, %lu operations, %lu comparisons, %lu distinct outcomes%s, %.1f s\n", cfg.property.c_str(), rc?"VIOLATED":"holds", (unsigned long)runs, (unsigned long)ops, (unsigned long)cmp, (unsigned long)outc, cfg.useStates? strf(", %lu states", (unsigned long)sts).c_str() : "", now()-T0);
  return rc;
}
}
