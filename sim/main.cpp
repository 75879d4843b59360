// Worker of the simulator. Code of the library runs only in forked children ("simulated processes"): a run, the brand
// new reference filters and restarts after a crash each get a process of their own. The parent never executes it.
#include "exec.hpp"
#include "alloc.hpp"
#include "gen.hpp"
#include "model.hpp"
#include "refdesign.hpp"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>

static FILE* OUT = stdout;
static Shared* SH;
static Ref* REFS;            // shared memory for reference results
static int g_cpuLimit = 20, g_cpuExtra = 0;      // seconds; the extra grows with the length of the run
static void budget(const Scenario& sc) { uint64_t w = 0; for (auto& x : sc.ops) { int m = 0; for (int i = 0; i < MAXSLOT; i++) m += (int)(x.mask >> i & 1); w += x.k == O_FEED ? (uint64_t)x.n * (uint64_t)(m ? m : 1) : (uint64_t)x.n * 8; } g_cpuExtra = (int)(w / 12000); }
static uint64_t nowMs() { return (uint64_t)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static void limits() {
  struct itimerval tv; tv.it_value.tv_sec = g_cpuLimit + g_cpuExtra; tv.it_value.tv_usec = 0; tv.it_interval = tv.it_value; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  signal(SIGVTALRM, SIG_DFL); signal(SIGALRM, SIG_DFL); alarm(150 + 4 * (unsigned)g_cpuExtra);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
ChildEnd forkRun(const std::function<void()>& f) {
  fflush(OUT);
  pid_t p = fork();
  if (p == 0) { limits(); f(); _exit(0); }
  if (p < 0) { fprintf(stderr, "fork failed\n"); exit(3); }
  int ws = 0; while (waitpid(p, &ws, 0) < 0) {}
  ChildEnd e{RS_DONE, 0};
  if (WIFSIGNALED(ws)) { e.sig = WTERMSIG(ws); e.st = e.sig == SIGVTALRM || e.sig == SIGALRM ? RS_HANG : RS_SIGNAL; }
  else if (WEXITSTATUS(ws)) { e.st = RS_EXIT; e.sig = WEXITSTATUS(ws); }
  return e;
}
// a life that begins where others end: after exit() has destroyed the static objects of the program
static void (*g_last)(void*) = nullptr; static void* g_lastArg = nullptr;
__attribute__((destructor(101))) static void afterAll() { if (g_last) { g_last(g_lastArg); _exit(0); } }
static ChildEnd runChild(const Scenario& sc, const RefMap& refs, const RunOpts& o) {
  memset((void*)SH, 0, sizeof *SH);
  std::function<void()> f = [&] { execute(sc, refs, o, SH); };
  ChildEnd e = o.env == ENV_LATE ? forkRun([&] { g_lastArg = &f; g_last = [](void* v) { (*(std::function<void()>*)v)(); }; exit(0); }) : forkRun(f);
  if (e.st == RS_DONE && !SH->finished) e.st = RS_EXIT;       // somebody called exit()
  else if (e.st == RS_DONE && SH->rejectStop) e.st = RS_REJECT;
  return e;
}
// ---- reference results: one brand new filter, one request, one process -------------------------------------------------
static const char* sigName(int s) { return s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : "signal"; }
static bool needRefs(const std::string& p) { return p == "C01" || p == "C02" || p == "C03" || p == "C04" || p == "C05" || p == "C06" || p == "C19"; }
static std::string refCrash;
static void getRefs(const Scenario& sc, RefMap& m) {
  std::vector<int> cl = resolveClasses(sc); std::map<std::string, int> seen; m.assign(sc.ops.size(), nullptr); int n = 0; refCrash.clear();
  for (size_t i = 0; i < sc.ops.size(); i++) {
    const Op& o = sc.ops[i]; if ((o.k != O_NEW && o.k != O_SETUP) || cl[i] < 0 || (o.k == O_SETUP && !fits(classes()[(size_t)cl[i]], o.p))) continue;
    std::string key = std::to_string(cl[i]) + (o.k == O_SETUP ? paramsText(o.p) : "");
    auto it = seen.find(key); if (it != seen.end()) { m[i] = &REFS[it->second]; continue; }
    Ref* r = &REFS[n]; *r = Ref(); const ClassDesc& d = classes()[(size_t)cl[i]];
    ChildEnd e = forkRun([&] {
      static char buf[65536]; Obj* q = nullptr; r->outcome = 9;
      q = d.make(buf + 64);
#ifndef NOEXC
      uint64_t w0 = g_work; auto lap = [&](int w) { uint64_t u = g_work - w0; if (u > r->work[w]) r->work[w] = u; w0 = g_work; };
      try { if (o.k == O_SETUP) q->setup(o.p); r->outcome = 0; } catch (const std::invalid_argument&) { r->outcome = 1; } catch (...) { r->outcome = 2; }
#endif
#ifdef THREADS
      lap(W_SETUP); if (sc.prop != "C19") _exit((snapshot(q, r->s), 0));
      static char b2[65536]; Obj* c = nullptr; std::vector<PZ> v; v.reserve(64); Rng z(1);
      w0 = g_work; for (int i = 0; i < 6; i++) { q->fD(z.uniform(-1, 1)); lap(W_SAMPLE); }
      w0 = g_work; q->reset(); lap(W_RESET); c = q->copyTo(b2 + 64); lap(W_COPY); c->assign(*q, false); lap(W_ASSIGN);
      try { q->response(0.1); lap(W_RESPONSE); w0 = g_work; q->poleZeros(v); } catch (...) {} lap(W_POLES);
#endif
      snapshot(q, r->s);
    });
    if (e.st != RS_DONE || r->outcome == 9) { r->crashed = true; r->sig = e.sig; if (refCrash.empty()) refCrash = d.name() + " (brand new, request: " + (o.k == O_SETUP ? paramsText(o.p) : "none") + "): " + (e.st == RS_HANG ? "hangs" : e.st == RS_SIGNAL ? std::string("dies with ") + sigName(e.sig) : "ends the process"); }
    m[i] = r; seen[key] = n++;
  }
}
#ifndef NOEXC
// ---- the build without exceptions, as a second simulated machine; and this build before its static objects exist ---------
static FILE *nxIn = nullptr, *nxOut = nullptr; static pid_t nxPid = 0; static char nxPath[4096];
static void nxStart(const char* how = "serve") {
  int a[2], b[2]; if (pipe(a) || pipe(b)) exit(3);
  nxPid = fork();
  if (nxPid == 0) { dup2(a[0], 0); dup2(b[1], 1); close(a[0]); close(a[1]); close(b[0]); close(b[1]); char* ne[] = {nullptr}; const char* na[] = {nxPath, how, nullptr}; execve(nxPath, (char**)na, ne); _exit(127); }
  close(a[0]); close(b[1]); nxIn = fdopen(a[1], "w"); nxOut = fdopen(b[0], "r");
  fcntl(a[1], F_SETFD, FD_CLOEXEC); fcntl(b[0], F_SETFD, FD_CLOEXEC);
}
#endif
struct Seg { int start; ChildEnd e; int at; std::vector<uint64_t> hash; std::vector<int> out; };   // one simulated process life
static std::vector<Seg> lives(const Scenario& sc, bool noexc, uint64_t* cntAcc) {
  std::vector<Seg> v; int start = 0; RefMap none;
  for (int k = 0; k < 60 && start < (int)sc.ops.size(); k++) {
    RunOpts o; o.start = start; o.stopOnReject = !noexc; o.oracles = false;
    Seg s; s.start = start; s.e = runChild(sc, none, o); s.at = SH->op;
    if (cntAcc) { for (int i = 0; i < N_COUNT; i++) cntAcc[i] += SH->cnt[i]; }
    bool died = s.e.st != RS_DONE; int n = died ? s.at : (int)sc.ops.size();
    for (int i = start; i < n; i++) { s.hash.push_back(SH->opHash[i]); s.out.push_back(SH->opOut[i]); }
    v.push_back(s);
    if (!died) break;
    start = s.at + 1;
  }
  return v;
}
std::string describe(const ChildEnd& e) {
  return e.st == RS_DONE ? "completes" : e.st == RS_REJECT ? "throws" : e.st == RS_SIGNAL ? (e.sig == SIGABRT ? "aborts" : std::string("dies with ") + sigName(e.sig)) : e.st == RS_HANG ? "hangs" : "exits";
}
// ---- one scenario, one verdict ---------------------------------------------------------------------------------------------
static std::vector<uint64_t> g_inter;
// what runs is always what a replay file can hold
static Scenario expand(const std::string& prop, uint64_t seed) {
  Scenario g = generate(prop, seed), s; std::string err;
  if (!fromText(toText(g), s, err)) { fprintf(stderr, "seed %llu cannot be written down: %s\n", (unsigned long long)seed, err.c_str()); exit(3); }
  return s;
}
static Verdict bad(const std::string& tag, int op, const std::string& msg, uint64_t h) { Verdict v; v.bad = true; v.tag = tag; v.msg = msg; v.op = op; v.hash = h; return v; }
static void evaluate(Scenario& sc, Outcome& out) {
  budget(sc);
  out = Outcome(); memset(out.cnt, 0, sizeof out.cnt);
  auto addCnt = [&] { for (int i = 0; i < N_COUNT; i++) out.cnt[i] += SH->cnt[i]; out.samples += SH->samples; };
  auto crash = [&](const ChildEnd& e) { out.v = bad(e.st == RS_HANG ? "hang" : e.st == RS_SIGNAL ? "crash" : "exit", SH->op, std::string("the process ") + describe(e) + " during: " + (SH->op < (int)sc.ops.size() ? opText(sc.ops[(size_t)SH->op]) : "teardown"), mix(13, (uint64_t)SH->op)); out.sh = *SH; };
  RefMap refs; refs.assign(sc.ops.size(), nullptr);
#ifndef NOEXC
  if (sc.prop == "C11") {
    if (!nxPid) nxStart();
    std::vector<Seg> a = lives(sc, false, out.cnt); out.sh = *SH; out.sh.hist = 0; for (auto& s : a) for (auto h : s.hash) out.v.hash = mix(out.v.hash, h);
    // hist/states: from a plain run
    std::string t = toText(sc); fprintf(nxIn, "%zu\n", t.size()); fwrite(t.data(), 1, t.size(), nxIn); fflush(nxIn);
    int n = 0; if (fscanf(nxOut, "%d", &n) != 1) { fprintf(stderr, "no answer from the build without exceptions\n"); exit(3); }
    std::vector<Seg> b;
    for (int i = 0; i < n; i++) { Seg s; int st, m; if (fscanf(nxOut, "%d %d %d %d %d", &s.start, &st, &s.e.sig, &s.at, &m) != 5) exit(3); s.e.st = (RunStatus)st; for (int k = 0; k < m; k++) { unsigned long long h; int o; if (fscanf(nxOut, "%llx %d", &h, &o) != 2) exit(3); s.hash.push_back(h); s.out.push_back(o); } b.push_back(s); }
    out.cnt[N_CRASHRESTART] += b.size() - 1;
    uint64_t H = out.v.hash;
    for (size_t i = 0; i < a.size() || i < b.size(); i++) {
      if (i >= a.size() || i >= b.size()) { const Seg& q = i < a.size() ? a[i] : b[i]; out.v = bad("builds-diverge", q.start, "one build lives on where the other has ended", H); return; }
      const Seg &x = a[i], &y = b[i];
      for (size_t k = 0; k < x.hash.size() && k < y.hash.size(); k++) if (x.hash[k] != y.hash[k] || x.out[k] != y.out[k]) { int op = x.start + (int)k; out.v = bad("builds-differ", op, "the two builds give different results for: " + opText(sc.ops[(size_t)op]), H); return; }
      bool xa = x.e.st == RS_REJECT, ya = y.e.st == RS_SIGNAL && y.e.sig == SIGABRT;
      if (x.e.st == RS_DONE && y.e.st == RS_DONE) continue;
      int op = std::min(x.e.st == RS_DONE ? 1 << 30 : x.at, y.e.st == RS_DONE ? 1 << 30 : y.at);
      if (!(xa && ya && x.at == y.at)) {
        ChildEnd ex = x.e, ey = y.e; if (x.at != op || x.e.st == RS_DONE) ex.st = RS_DONE; if (y.at != op || y.e.st == RS_DONE) ey.st = RS_DONE;
        out.v = bad("no-abort-for-rejection", op, "at this request the build with exceptions " + describe(ex) + ", the build without " + describe(ey) + ": " + opText(sc.ops[(size_t)op]), H); return;
      }
    }
    return;
  }
#endif
#ifdef THREADS
  g_inter.clear(); if (sc.threads) { runThreads(sc, out, g_inter); return; }
#endif
  if (sc.prop == "C16") {
    RunOpts o; o.env = 0; ChildEnd e = runChild(sc, refs, o); addCnt(); out.cnt[N_ENVPAIR]++;
    if (e.st != RS_DONE) return crash(e);
    out.sh = *SH; if (SH->violated) { out.v = bad(SH->tag, SH->vop, SH->msg, SH->hash); return; }
    std::vector<uint64_t> h(SH->opHash, SH->opHash + MAXOPS); Shared first = *SH;
    if ((sc.seed & 3) == 0) {      // the same once more: nothing but the calls may matter
      e = runChild(sc, refs, o); if (e.st != RS_DONE) return crash(e);
      for (size_t i = 0; i < sc.ops.size(); i++) if (h[i] != SH->opHash[i]) { out.v = bad("not-reproducible", (int)i, "the same calls in the same memory gave different results: " + opText(sc.ops[i]), 1); return; }
    }
    o.env = sc.env ? sc.env : 1;
#if !defined(NOEXC) && !defined(THREADS)
    if (o.env == ENV_EARLY) {
      if (!nxPid) { snprintf(nxPath, sizeof nxPath, "/proc/self/exe"); nxStart("serve-early"); }
      std::string t = toText(sc); fprintf(nxIn, "%zu\n", t.size()); fwrite(t.data(), 1, t.size(), nxIn); fflush(nxIn);
      int st = 0, n = 0; if (fscanf(nxOut, "%d %d %d %d", &st, &e.sig, &n, (int*)&SH->op) != 4) { fprintf(stderr, "no answer from the early process\n"); exit(3); }
      e.st = (RunStatus)st; SH->violated = 0; for (int i = 0; i < n; i++) { unsigned long long x; if (fscanf(nxOut, "%llx", &x) != 1) exit(3); SH->opHash[i] = x; }
    } else
#endif
    e = runChild(sc, refs, o);
    if (e.st != RS_DONE) return crash(e);
    if (SH->violated) { out.v = bad(SH->tag, SH->vop, SH->msg, SH->hash); return; }
    for (size_t i = 0; i < sc.ops.size(); i++) if (h[i] != SH->opHash[i]) { out.v = bad("depends-on-environment", (int)i, std::string(o.env == ENV_THREAD ? "called from another thread" : o.env == ENV_PROCESS ? "with other leftovers in errno, floating-point flags, random numbers or clock" : o.env == ENV_EARLY ? "before the static objects of the program are built" : o.env == ENV_LATE ? "after the static objects of the program are gone" : "with other memory contents, addresses or unrelated filters in use") + ", this operation gives different results: " + opText(sc.ops[i]), mix(first.hash, SH->hash)); return; }
    out.v.hash = first.hash; return;
  }
  if (sc.prop == "C09") {
    RunOpts o; ChildEnd e = runChild(sc, refs, o); if (e.st != RS_DONE) { addCnt(); return crash(e); }
    Shared base = *SH; uint64_t c0[N_COUNT]; memcpy(c0, (void*)SH->cnt, sizeof c0);
    o.inject = true; o.repeat = 3; e = runChild(sc, refs, o); addCnt(); out.sh = base;
    if (e.st != RS_DONE) return crash(e);
    if (SH->violated) { out.v = bad(SH->tag, SH->vop, std::string("with failing allocations: ") + SH->msg, SH->hash); return; }
    if (base.violated) { out.v = bad(base.tag, base.vop, base.msg, base.hash); return; }
    for (size_t i = 0; i < sc.ops.size(); i++) {
      if (sc.ops[i].k == O_QUERY && (SH->opKind[i] & 1)) continue;      // the query failed cleanly
      if (base.opHash[i] != SH->opHash[i]) { out.v = bad("depends-on-allocator", (int)i, "when allocations fail, this operation gives different results: " + opText(sc.ops[i]), mix(base.hash, SH->hash)); return; }
    }
    if (SH->live3 > SH->live2 && SH->live2 > SH->live1) { out.v = bad("leak", (int)sc.ops.size() - 1, "every repetition of this history leaves " + std::to_string(SH->live3 - SH->live2) + " more blocks allocated", mix(base.hash, SH->hash)); return; }
    out.v.hash = mix(base.hash, SH->hash); return;
  }
  if (needRefs(sc.prop) || sc.quiet) { getRefs(sc, refs); if (!refCrash.empty()) { out.v = bad("crash", 0, refCrash, 17); return; } }
  RunOpts o; o.env = sc.env; ChildEnd e = runChild(sc, refs, o); addCnt();
  if (e.st != RS_DONE) return crash(e);
  out.sh = *SH; out.v.hash = SH->hash;
  if (SH->violated) out.v = bad(SH->tag, SH->vop, SH->msg, SH->hash);
}
// ---- minimisation -----------------------------------------------------------------------------------------------------------
static Scenario minimise(Scenario sc, const std::string& tag, uint64_t budgetMs) {
  uint64_t t0 = nowMs(); Outcome o;
  auto fails = [&](Scenario& c) { if (nowMs() - t0 > budgetMs) return false; evaluate(c, o); if (o.v.bad && o.v.tag == tag) return true;
    if (c.threads > 0 && !o.v.bad) { c.sched.clear(); c.explore = 24; evaluate(c, o); if (o.v.bad && o.v.tag == tag) return true; }
    return false; };
  // operations after the failing one
  evaluate(sc, o); if (o.v.bad && o.v.op >= 0 && (size_t)o.v.op + 1 < sc.ops.size() && sc.threads == 0) { Scenario c = sc; c.ops.resize((size_t)o.v.op + 1); if (fails(c)) sc = c; }
  bool progress = true;
  while (progress && nowMs() - t0 < budgetMs) {
    progress = false;
    for (size_t w = std::max<size_t>(1, sc.ops.size() / 2); w >= 1; w /= 2) for (size_t i = 0; i + 1 <= sc.ops.size();) {
      Scenario c = sc; size_t e = std::min(sc.ops.size(), i + w); c.ops.erase(c.ops.begin() + (long)i, c.ops.begin() + (long)e);
      if (!c.ops.empty() && fails(c)) { sc = c; progress = true; } else i += w;
    }
    for (size_t w = std::max<size_t>(1, sc.sched.size() / 2); w >= 1 && !sc.sched.empty(); w /= 2) for (size_t i = 0; i < sc.sched.size();) {
      Scenario c = sc; size_t e = std::min(sc.sched.size(), i + w); c.sched.erase(c.sched.begin() + (long)i, c.sched.begin() + (long)e);
      if (fails(c)) { sc = c; progress = true; } else i += w;
    }
    if (!progress) for (size_t i = 0; i < sc.ops.size(); i++) {
      auto tryOp = [&](const std::function<void(Op&)>& f) { Scenario c = sc; f(c.ops[i]); if (opText(c.ops[i]) != opText(sc.ops[i]) && fails(c)) { sc = c; progress = true; return true; } return false; };
      if (sc.ops[i].k == O_FEED) {
        while (sc.ops[i].n > 1 && tryOp([](Op& x) { x.n /= 2; })) {}
        while (sc.ops[i].n > 1 && tryOp([](Op& x) { x.n -= 1; })) {}
        if (sc.ops[i].gen != G_STEP && !outlier(sc.ops[i].gen)) tryOp([](Op& x) { x.gen = G_NOISE; });
        if (sc.ops[i].amp != 1) tryOp([](Op& x) { x.amp = 1; });
        if (sc.ops[i].st) tryOp([](Op& x) { x.st = 0; });
      } else if (sc.ops[i].n > 0) {
        if (!tryOp([](Op& x) { x.n = 0; })) while (sc.ops[i].n > 1 && tryOp([](Op& x) { x.n /= 2; })) {}
      } else if (sc.ops[i].k == O_SETUP && sc.ops[i].p.form < 4) {
        if (sc.ops[i].p.order > 1) tryOp([](Op& x) { x.p.order = 1; });
        if (sc.ops[i].p.order > 2) tryOp([](Op& x) { x.p.order = 2; });
      }
    }
    if (sc.quiet) { Scenario c = sc; c.quiet = 0; if (fails(c)) sc = c; }
    if (sc.env && sc.prop != "C16") { Scenario c = sc; c.env = 0; if (fails(c)) sc = c; }
  }
  return sc;
}
static std::string slurp(const char* p) { std::ifstream f(p); std::stringstream b; b << f.rdbuf(); return b.str(); }
static void report(const char* head, const Verdict& v) { fprintf(OUT, "%s tag=%s op=%d hash=%016llx msg=%s\n", head, v.tag.c_str(), v.op, (unsigned long long)v.hash, v.msg.c_str()); fflush(OUT); }

static int simMain(int argc, char** argv) {
  // one address-space layout for every run
  static std::vector<char*> av; static std::string argBuf, nxEnv; const char* fdS = getenv("IIR1_SIM_FD");
  if (!fdS) {
    personality(ADDR_NO_RANDOMIZE); int fd = memfd_create("args", 0); if (fd < 0) return 3;
    std::string b; for (int i = 0; i < argc; i++) { b += argv[i]; b += '\n'; }
    const char* x = getenv("IIR1_SIM_NOEXC"); b += x ? x : ""; b += '\n'; if (write(fd, b.data(), b.size()) != (ssize_t)b.size()) return 3;
    char e[32]; snprintf(e, 32, "IIR1_SIM_FD=%04d", fd); static char early[] = "IIR1_SIM_EARLY=1"; char* ne[] = {e, argc > 1 && !strcmp(argv[1], "serve-early") ? early : nullptr, nullptr}; static char nm[] = "sim"; char* na[] = {nm, nullptr};
    std::string self(4096, 0); ssize_t n = readlink("/proc/self/exe", &self[0], 4095); if (n <= 0) return 3; self.resize((size_t)n);
    (void)self; execve("/proc/self/exe", na, ne); return 3;
  }
  { int fd = atoi(fdS); lseek(fd, 0, SEEK_SET); char b[8192]; ssize_t n = read(fd, b, sizeof b); close(fd); argBuf.assign(b, n > 0 ? (size_t)n : 0);
    std::vector<size_t> st; size_t p0 = 0; for (size_t i = 0; i < argBuf.size(); i++) if (argBuf[i] == '\n') { argBuf[i] = 0; st.push_back(p0); p0 = i + 1; }
    for (size_t i = 0; i + 1 < st.size(); i++) av.push_back(&argBuf[st[i]]);
    if (!st.empty()) nxEnv = &argBuf[st.back()];
    argc = (int)av.size(); av.push_back(nullptr); argv = av.data(); }
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16); OUT = fdopen(dup(1), "w"); int nul = open("/dev/null", O_WRONLY);
  signal(SIGPIPE, SIG_IGN);
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  REFS = (Ref*)mmap(nullptr, sizeof(Ref) * MAXOPS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  classes(); std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "serve") {       // build without exceptions: scenarios in, process lives out
    int len; while (scanf("%d", &len) == 1) {
      getchar(); std::string t((size_t)len, 0); if (fread(&t[0], 1, (size_t)len, stdin) != (size_t)len) return 3;
      Scenario sc; std::string err; if (!fromText(t, sc, err)) return 3;
      budget(sc);
      dup2(nul, 1); dup2(nul, 2);
      std::vector<Seg> v = lives(sc, true, nullptr); fprintf(OUT, "%zu\n", v.size());
      for (auto& s : v) { fprintf(OUT, "%d %d %d %d %zu\n", s.start, (int)s.e.st, s.e.sig, s.at, s.hash.size()); for (size_t i = 0; i < s.hash.size(); i++) fprintf(OUT, "%llx %d\n", (unsigned long long)s.hash[i], s.out[i]); }
      fflush(OUT);
    }
    return 0;
  }
#ifndef NOEXC
  snprintf(nxPath, sizeof nxPath, "%s", nxEnv.c_str());
#endif
  if (mode == "serve-early") {
    int len; while (scanf("%d", &len) == 1) {
      getchar(); std::string t((size_t)len, 0); if (fread(&t[0], 1, (size_t)len, stdin) != (size_t)len) return 3;
      Scenario sc; std::string err; if (!fromText(t, sc, err)) return 3;
      budget(sc);
      dup2(nul, 1); dup2(nul, 2); RefMap refs; refs.assign(sc.ops.size(), nullptr); RunOpts o; o.env = ENV_EARLY;
      ChildEnd e = runChild(sc, refs, o); fprintf(OUT, "%d %d %zu %d\n", (int)e.st, e.sig, sc.ops.size(), (int)SH->op);
      for (size_t i = 0; i < sc.ops.size(); i++) fprintf(OUT, "%llx\n", (unsigned long long)SH->opHash[i]);
      fflush(OUT);
    }
    return 0;
  }
  int err2 = dup(2); (void)err2;
  if (mode == "replay") {
    Scenario sc; std::string err; if (argc < 3 || !fromText(slurp(argv[2]), sc, err)) { fprintf(stderr, "cannot read scenario: %s\n", err.c_str()); return 2; }
    dup2(nul, 1); dup2(nul, 2);
    Outcome o; evaluate(sc, o); if (o.v.bad) { report("VIOL", o.v); return 1; }
    fprintf(OUT, "OK hash=%016llx\n", (unsigned long long)o.v.hash); fflush(OUT); return 0;
  }
  if (mode == "show") { Scenario sc = generate(argv[2], strtoull(argv[3], nullptr, 10)); fprintf(OUT, "%s", toText(sc).c_str()); fflush(OUT); return 0; }
  if (mode == "list") { for (auto& c : classes()) fprintf(OUT, "%s\n", c.name().c_str()); fflush(OUT); return 0; }
  if (mode != "run" || argc < 7) { fprintf(stderr, "usage: sim run PROP FIRST STEP COUNT WALLMS REPLAYDIR | replay FILE | show PROP SEED\n"); return 2; }
  std::string prop = argv[2]; uint64_t first = strtoull(argv[3], nullptr, 10), step = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10), wall = strtoull(argv[6], nullptr, 10);
  std::string dir = argc > 7 ? argv[7] : ".";
  dup2(nul, 1); dup2(nul, 2);
  uint64_t t0 = nowMs(); uint64_t total[N_COUNT] = {0}, runsWith[N_COUNT] = {0}, samples = 0, runs = 0; std::set<uint64_t> hist, states;
  uint64_t ops = 0, seedHash = 0;
  int rc = 0; bool nondet = false; uint64_t reruns = 0, schedules = 0;
  for (uint64_t i = 0; i < count; i++) {
    if ((i & 7) == 0 && nowMs() - t0 > wall) break;
    uint64_t seed = first + i * step; Scenario sc = expand(prop, seed); Outcome o; evaluate(sc, o);
    runs++; ops += sc.ops.size(); samples += o.samples; for (int k = 0; k < N_COUNT; k++) { total[k] += o.cnt[k]; runsWith[k] += o.cnt[k] != 0; }
    uint64_t hh = o.sh.hist; if (!hh) hh = mix(o.v.hash, 1);
    static const Cnt NT[] = {N_REJECT, N_RETUNE_RUNNING, N_RESET_USED, N_COPY, N_ASSIGN, N_DESTROY, N_RELOC, N_G_NAN, N_G_INF, N_G_DENORM, N_G_HUGE, N_G_SPIKE, N_ALLOCFIRED, N_LOSTSAMPLES, N_PREEMPT, N_TYPED, N_CRASHRESTART};
    bool nontrivial = false; for (Cnt c : NT) if (o.cnt[c]) nontrivial = true;
    schedules += sc.threads ? g_inter.size() : 1;
    if (sc.threads) { for (auto h : g_inter) if (h) hist.insert(h); } else if (nontrivial) hist.insert(hh); for (int k = 0; k < o.sh.nstates; k++) states.insert(o.sh.states[k]);
    seedHash = mix(seedHash, o.v.hash); if (count <= 64) fprintf(OUT, "SEEDHASH %llu:%llx\n", (unsigned long long)seed, (unsigned long long)o.v.hash);
    if ((i & 63) == 5 && !o.v.bad) {      // determinism: the same seed again must give the same observations
      Outcome o2; Scenario sc2 = expand(prop, seed); evaluate(sc2, o2);
      if (o2.v.hash != o.v.hash || o2.v.bad) { fprintf(OUT, "NONDET seed=%llu\n", (unsigned long long)seed); fflush(OUT); nondet = true; if (!o2.v.bad) continue; o = o2; }
      reruns++;
    }
    if (o.v.bad) {
      Outcome o2; evaluate(sc, o2);
      if (!o2.v.bad || o2.v.tag != o.v.tag) { fprintf(OUT, "NONDET seed=%llu tag=%s/%s\n", (unsigned long long)seed, o.v.tag.c_str(), o2.v.tag.c_str()); fflush(OUT); nondet = true; continue; }
      if (o.v.tag == "hang") g_cpuLimit = 3;
      Scenario m = minimise(sc, o.v.tag, 25000); g_cpuLimit = 20; evaluate(m, o2);
      if (!o2.v.bad) { m = sc; o2 = o; }
      std::string path = dir + "/" + prop + "-" + std::to_string(seed) + ".replay"; std::ofstream f(path);
      f << "# violation: " << o2.v.tag << " at op " << o2.v.op << ": " << o2.v.msg << "\n# found with seed " << seed << ", " << sc.ops.size() << " operations minimised to " << m.ops.size() << "\n" << toText(m); f.close();
      fprintf(OUT, "FOUND seed=%llu path=%s ", (unsigned long long)seed, path.c_str()); report("VIOL", o2.v); rc = 1; break;
    }
  }
  if (rc == 0 && nondet) rc = 4;
  fprintf(OUT, "STAT executions %llu\nSTAT reruns %llu\n", (unsigned long long)schedules, (unsigned long long)reruns);
  fprintf(OUT, "STAT runs %llu\nSTAT ops %llu\nSTAT samples %llu\nSTAT ms %llu\nSTAT hash %llu\n", (unsigned long long)runs, (unsigned long long)ops, (unsigned long long)samples, (unsigned long long)(nowMs() - t0), (unsigned long long)seedHash);
  for (int k = 0; k < N_COUNT; k++) fprintf(OUT, "CNT %s %llu %llu\n", CNT_NAMES[k], (unsigned long long)total[k], (unsigned long long)runsWith[k]);
  fprintf(OUT, "HIST"); for (auto h : hist) fprintf(OUT, " %llx", (unsigned long long)h); fprintf(OUT, "\nSTATES"); for (auto h : states) fprintf(OUT, " %llx", (unsigned long long)h); fprintf(OUT, "\n");
  fflush(OUT); return rc;
}
// runs before the static objects of this program (the library's included) are initialised
__attribute__((constructor(101))) static void beforeAll() { if (getenv("IIR1_SIM_EARLY") && getenv("IIR1_SIM_FD")) _exit(simMain(0, nullptr)); }
int main(int argc, char** argv) { return simMain(argc, argv); }
