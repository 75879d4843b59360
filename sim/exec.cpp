#include "exec.hpp"
#include "alloc.hpp"
#include "model.hpp"
#include "refdesign.hpp"
#include <cfenv>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <stdexcept>
#include <sys/mman.h>
#include <unistd.h>
#include <immintrin.h>
#include <cerrno>
#include <pthread.h>

const char* CNT_NAMES[] = {"requests_accepted", "requests_rejected", "requests_rejected_late", "retunes_of_running_stream", "order_changes", "sampling_clock_jumps", "requests_repeated", "streams_fed", "resets", "resets_of_used_filters",
  "copies", "assignments", "destructions", "relocations", "queries", "queries_out_of_range", "nan_samples", "infinite_samples", "denormal_samples", "huge_samples", "spikes",
  "allocator_failures_armed", "allocations_failed", "samples_checked_against_model", "samples_outside_model", "pair_samples_compared", "tone_measurements", "typed_samples", "process_crash_restarts", "environment_pairs",
  "preemptions", "yield_points", "threads", "lost_or_repeated_samples", "conflicting_accesses_between_threads", "settling_checks", "queries_hit_by_allocation_failure", "threads_stalled_or_killed", "operations_with_bounded_work"};
uint64_t g_work = 0; static uint64_t g_lastWork = 0;

static uint64_t g_what = 0;     // text of the last rejection
static uint64_t textHash(const char* t) { uint64_t h = 5; for (; t && *t; t++) h = mix(h, (unsigned char)*t); return h; }
#ifdef NOEXC
#define TRY_
#define CATCH_(out) (void)out;
#else
#define TRY_ try
#define CATCH_(out) catch (const std::invalid_argument& e) { out = 1; g_what = textHash(e.what()); } catch (const std::bad_alloc&) { out = 2; } catch (const std::exception&) { out = 3; } catch (...) { out = 4; }
#endif

static unsigned fpControl() {
  unsigned short cw; __asm__ __volatile__("fnstcw %0" : "=m"(cw));
  return (_mm_getcsr() & 0xFFC0u) | ((unsigned)cw << 16);
}
__attribute__((noinline)) static void scrub(int pattern) {
  volatile char b[24576]; for (size_t i = 0; i < sizeof b; i += 1) b[i] = (char)pattern;
  __asm__ __volatile__("" ::"r"(&b[0]) : "memory");
}
static int g_scrub = -1; static bool g_otherThread = false; static unsigned g_calls = 0; static unsigned long long g_procSeed = 0;
template <class F> __attribute__((noinline)) int sut(F f) {     // one call into the library
  int out = 0;
  if (g_scrub >= 0) scrub(g_scrub);
#if !defined(NOEXC) && !defined(THREADS)
  if (g_otherThread && (++g_calls & 1)) {       // this call comes from a thread that was not there before
    struct Job { F* f; int* out; } job{&f, &out};
    pthread_t t; auto body = [](void* v) -> void* { Job* j = (Job*)v; int& out = *j->out; if (g_scrub >= 0) scrub(g_scrub); g_alloc.inSut = true; try { (*j->f)(); } CATCH_(out) g_alloc.inSut = false; return nullptr; };
    if (pthread_create(&t, nullptr, body, &job)) _exit(9);
    pthread_join(t, nullptr); return out;
  }
#endif
  if (g_procSeed) {                             // leftovers of other parts of the program
    static const int E[] = {EDOM, ERANGE, ENOMEM, EINTR, 0}; g_procSeed = g_procSeed * 6364136223846793005ull + 1442695040888963407ull;
    srand((unsigned)(g_procSeed >> 20)); g_clockSkew = g_procSeed >> 30 | 1; feclearexcept(FE_ALL_EXCEPT); feraiseexcept((int)(g_procSeed >> 40) & FE_ALL_EXCEPT); errno = E[(g_procSeed >> 50) % 5];
  }
  g_alloc.inSut = true; uint64_t w0 = g_work;
  TRY_ { f(); } CATCH_(out)
  g_alloc.inSut = false; g_lastWork = g_work - w0;
  return out;
}
// pole/zero extraction of single sections may legitimately refuse a section: comparisons with the build without
// exceptions leave it out of the snapshots
static bool g_noPz = false;
int snapshot(Obj* o, Snap& s) {
  static const double FR[7] = {0, 0.013, 0.07, 0.19, 0.31, 0.44, 0.5};
  int out = 0;
  TRY_ {
    s.ns = o->numStages(); s.nst = o->storageStages();
    if (s.nst > MAXST) s.nst = MAXST;
    for (int i = 0; i < s.nst; i++) s.st[i] = o->storage(i);
    s.nidx = s.ns < 0 ? 0 : s.ns > s.nst ? s.nst : s.ns;
    for (int i = 0; i < s.nidx; i++) s.idx[i] = o->indexed(i);
    for (int i = 0; i < 7; i++) s.resp[i] = o->response(FR[i]);
    o->response(FR[0]);      // the next snapshot asks first what this one asks last
  } CATCH_(out)
  s.npz = 0; s.pzOut = 0;
  if (g_noPz) return out;
  std::vector<PZ> v; v.reserve(64);
  TRY_ { o->poleZeros(v); } CATCH_(s.pzOut)
  if (!s.pzOut) { s.npz = (int)v.size(); for (int i = 0; i < s.npz && i < MAXST; i++) s.pz[i] = v[(size_t)i]; }
  return out;
}
static const double* cf(const Coef& c) { return &c.b0; }
static std::string fmt(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, 400, f, a); va_end(a); return b; }
static bool eqB(double a, double b) { return bits(a) == bits(b); }
static bool closeTo(double a, double b, double rel, double abs_) {
  if (eqB(a, b)) return true;
  if (!std::isfinite(a) || !std::isfinite(b)) return false;
  return std::fabs(a - b) <= rel * std::fmax(std::fabs(a), std::fabs(b)) + abs_;
}
static bool cmpSnap(const Snap& a, const Snap& b, bool exact, std::string& why) {
  static const char* CN[] = {"b0", "b1", "b2", "a0", "a1", "a2"};
  if (a.ns != b.ns) { why = fmt("number of sections %d, expected %d", a.ns, b.ns); return false; }
  if (a.nst != b.nst) { why = fmt("storage of %d sections, expected %d", a.nst, b.nst); return false; }
  for (int i = 0; i < a.nidx; i++) {      // sections in use; unused ones must not show in any output
    double m = 0; for (int k = 0; k < 6; k++) { double v = std::fabs(cf(b.st[i])[k]); if (v > m && std::isfinite(v)) m = v; }
    for (int k = 0; k < 6; k++) {
      double x = cf(a.st[i])[k], y = cf(b.st[i])[k];
      if (!(exact ? eqB(x, y) : closeTo(x, y, 1e-9, 1e-13 * m))) { why = fmt("section %d: %s is %.17g, expected %.17g", i, CN[k], x, y); return false; }
    }
  }
  double m = 0; for (int i = 0; i < 7; i++) { double v = std::abs(b.resp[i]); if (v > m && std::isfinite(v)) m = v; }
  for (int i = 0; i < 7; i++) {
    bool ok = exact ? eqB(a.resp[i].real(), b.resp[i].real()) && eqB(a.resp[i].imag(), b.resp[i].imag())
                    : closeTo(a.resp[i].real(), b.resp[i].real(), 1e-8, 1e-9 * m) && closeTo(a.resp[i].imag(), b.resp[i].imag(), 1e-8, 1e-9 * m);
    if (!ok) { why = fmt("response #%d is %g%+gi, expected %g%+gi", i, a.resp[i].real(), a.resp[i].imag(), b.resp[i].real(), b.resp[i].imag()); return false; }
  }
  if ((a.pzOut != 0) != (b.pzOut != 0)) { why = fmt("getPoleZeros outcome %d, expected %d", a.pzOut, b.pzOut); return false; }
  if (a.npz != b.npz) { why = fmt("%d pole/zero pairs, expected %d", a.npz, b.npz); return false; }
  for (int i = 0; i < a.npz && i < MAXST; i++) {
    const double* x = reinterpret_cast<const double*>(&a.pz[i]); const double* y = reinterpret_cast<const double*>(&b.pz[i]);
    for (int k = 0; k < 8; k++)
      if (!(exact ? eqB(x[k], y[k]) : closeTo(x[k], y[k], 1e-7, 1e-9))) { why = fmt("pole/zero pair %d: component %d is %.17g, expected %.17g", i, k, x[k], y[k]); return false; }
  }
  return true;
}
bool sameExact(const Snap& a, const Snap& b, std::string& why) { return cmpSnap(a, b, true, why); }
bool sameApprox(const Snap& a, const Snap& b, std::string& why) { return cmpSnap(a, b, false, why); }
uint64_t hashSnap(const Snap& s) {
  uint64_t h = mix(7, (uint64_t)(s.ns + 100)); h = mix(h, (uint64_t)s.nst);
  for (int i = 0; i < s.nidx; i++) for (int k = 0; k < 6; k++) h = mix(h, bits(cf(s.st[i])[k]));
  for (int i = 0; i < s.nidx; i++) for (int k = 0; k < 6; k++) h = mix(h, bits(cf(s.idx[i])[k]));
  for (int i = 0; i < 7; i++) { h = mix(h, bits(s.resp[i].real())); h = mix(h, bits(s.resp[i].imag())); }
  h = mix(h, (uint64_t)s.pzOut); h = mix(h, (uint64_t)s.npz);
  for (int i = 0; i < s.npz && i < MAXST; i++) { const double* x = reinterpret_cast<const double*>(&s.pz[i]); for (int k = 0; k < 8; k++) h = mix(h, bits(x[k])); }
  return h;
}
std::vector<int> resolveClasses(const Scenario& sc) {
  int slot[MAXSLOT]; for (int& s : slot) s = -1;
  std::vector<int> r;
  for (auto& o : sc.ops) {
    int c = slot[o.a];
    switch (o.k) {
      case O_NEW: slot[o.a] = o.cls; c = o.cls; break;
      case O_COPY: if (slot[o.b] >= 0 && o.a != o.b) slot[o.a] = slot[o.b]; c = slot[o.b]; break;
      case O_DESTROY: slot[o.a] = -1; break;
      default: break;
    }
    r.push_back(c);
  }
  return r;
}

// ---------------------------------------------------------------------------------------------------------------------
namespace {
enum { OFF = 4096 };
#define ARENA arenaSize()
static size_t arenaSize() { static const size_t v = [] { size_t m = 4096; for (auto& c : classes()) m = std::max(m, c.size); return ((size_t)OFF + m + 512 + 4096 + 63) / 64 * 64; }(); return v; }
struct Slot {
  Obj* o = nullptr; int cls = -1; unsigned char* mem = nullptr; int arena = 0;
  Params p; bool configured = false; std::string key;      // last accepted request
  Coef c[MAXST]; int nc = 0; double G = INFINITY, Gacc = 0;
  SecModel sec[MAXST]; ld scale = 0; bool dontcare = false; bool fed = false;
  Snap expect; bool haveExpect = false;
  Obj* twin = nullptr; unsigned char* twinMem = nullptr;
  uint64_t histHash = 0; bool retuned = false; double amp = 0; bool wild = false; int lastKind = -1; bool rejectedLast = false;
  Tame tm; std::string lastReq; const Ref* as = nullptr;       // the brand new filter with its configuration
};
struct Sync { long common = 0; };

struct World {
  const Scenario& sc; const RefMap& refs; const RunOpts& opt; Shared* sh;
  std::string prop; int env;
  Slot s[MAXSLOT]; Sync sync[MAXSLOT][MAXSLOT];
  unsigned char* arenas = nullptr;       // 2 per slot + 1 twin per slot
  unsigned char fillByte; unsigned fp0; bool stop = false; int cur = 0;
  struct Retired { unsigned char* base; }; 
  bool oModel, oExposed, oRef, oAtomic, oVerdict, oIndep, oIntro, oTwin, oSettle, oTopo, oType, oTone, oEnv, oWork;

  World(const Scenario& a, const RefMap& r, const RunOpts& o, Shared* h) : sc(a), refs(r), opt(o), sh(h), prop(a.prop), env(o.env) {
    bool on = o.oracles;
    auto is = [&](std::initializer_list<const char*> l) { for (auto x : l) if (prop == x) return on; return false; };
    oModel = is({"C01", "C02", "C03", "C04", "C06", "C12"}); oExposed = is({"C12"}); oRef = is({"C03"}); oAtomic = is({"C04"}); oVerdict = is({"C05"});
    oIndep = is({"C06"}); oIntro = is({"C12"}); oTwin = is({"C02"}); oSettle = is({"C10"}); oTopo = is({"C14"}); oType = is({"C15"}); oTone = is({"C13"}); oEnv = is({"C16"}); oWork = is({"C19"});
    static const unsigned char FB[4] = {0x00, 0xFF, 0xA5, 0x5B};
    fillByte = FB[env & 3]; g_scrub = env ? (int)FB[(env + 1) & 3] : -1; g_alloc.fill = env ? FB[env & 3] : -1;
    g_noPz = prop == "C11"; g_otherThread = env == ENV_THREAD; g_calls = 0; g_procSeed = env == ENV_PROCESS ? sc.seed * 2 + 1 : 0; g_clockSkew = 0;
    arenas = (unsigned char*)mmap(nullptr, (size_t)ARENA * 3 * MAXSLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memset(arenas, fillByte, (size_t)ARENA * 3 * MAXSLOT);
    fp0 = fpControl();
  }
  ~World() { munmap(arenas, (size_t)ARENA * 3 * MAXSLOT); }
  // Observation must not be what keeps a filter working: in quiet runs nothing but the operations of the scenario
  // themselves ever calls a getter, and the streams alone are judged.
  void obs(Obj* o, Snap& sn) { if (!sc.quiet) snapshot(o, sn); }
  const ClassDesc& cd(int c) const { return classes()[(size_t)c]; }
  void cnt(Cnt c, uint64_t n = 1) { sh->cnt[c] += n; }
  void viol(const std::string& tag, const std::string& msg) {
    if (sh->violated) return;
    sh->violated = 1; sh->vop = cur; snprintf(sh->tag, sizeof sh->tag, "%s", tag.c_str()); snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str()); stop = true;
  }
  unsigned char* arenaBase(int slot, int which) { return arenas + (size_t)ARENA * (size_t)(slot * 3 + which); }
  unsigned char* place(int slot, int which, const ClassDesc& d, uint64_t seed) {
    size_t al = d.align < 8 ? 8 : d.align; (void)al;
    size_t sh_ = env == 0 ? 0 : ((seed * 2654435761u + (unsigned)env * 97u) % 40) * 8;
    if (d.align > 8) sh_ = sh_ / d.align * d.align;
    return arenaBase(slot, which) + OFF + sh_;
  }
  // every byte of an arena outside its living object must hold the fill pattern
  bool arenaClean(int slot, int which, const unsigned char* obj, size_t size, size_t& bad) {
    const unsigned char* b = arenaBase(slot, which);
    auto clean = [&](const unsigned char* p, size_t n) { if (!n || (p[0] == fillByte && !memcmp(p, p + 1, n - 1))) return true; size_t i = 0; while (p[i] == fillByte) i++; bad = (size_t)(p + i - b); return false; };
    if (!obj) return clean(b, ARENA);
    size_t at = (size_t)(obj - b); return clean(b, at) && clean(b + at + size, ARENA - at - size);
  }
  void checkCanaries(const char* after) {
    for (int i = 0; i < MAXSLOT && !stop; i++) for (int w = 0; w < 2; w++) {
      const unsigned char* live = (s[i].o && s[i].arena == w) ? s[i].mem : nullptr; size_t bad = 0;
      if (!arenaClean(i, w, live, live ? cd(s[i].cls).size : 0, bad)) {
        viol("stray-write", fmt("%s changed memory outside the filter (slot %d, byte %+ld relative to the object, %s)", after, i,
             live ? (long)(arenaBase(i, w) + bad - live) : (long)bad, live ? "next to a living filter" : "where a destroyed filter was"));
        return;
      }
    }
  }
  // what the memory held before: from environment 4 on this is plausible data instead of one repeated byte
  void remnants(int i, int cls, unsigned char* m, uint64_t seed) {
    if (env < 4 || env >= ENV_THREAD) return;
    const ClassDesc& d = cd(cls); Rng r(seed * 31 + (uint64_t)env); uint64_t what = g_what;
    if (env == 4) for (size_t k = 0; k + 4 <= d.size; k += 4) { int v = r.range(0, 9); memcpy(m + k, &v, 4); }
    if (env == 5) for (size_t k = 0; k + 8 <= d.size; k += 8) { double v = r.chance(0.5) ? r.range(-3, 40) : r.uniform(-1, 1); memcpy(m + k, &v, 8); }
    if (env >= 6) {                     // an earlier filter of the same type that had the same request (6) or another one (7)
      const Op* q = nullptr; for (size_t k = (size_t)cur; k < sc.ops.size(); k++) { const Op& o = sc.ops[k]; if (k > (size_t)cur && (o.k == O_NEW || o.k == O_DESTROY) && o.a == i) break;
        if (o.k == O_SETUP && o.a == i && fits(d, o.p) && !mustReject(d, o.p)) { q = &o; if (env == 6) break; } }
      const Params* p = q ? &q->p : nullptr;
      sut([&] { Obj* f = d.make(m); TRY_ { if (p) f->setup(*p); for (int k = 0; k < 3; k++) f->fD(1 + k); } CATCH_(dummy) f->~Obj(); });
    }
    g_what = what;
  }
  int dummy = 0;
  int createIn(int i, int which, int cls, uint64_t seed) {
    s[i] = Slot(); s[i].cls = cls; s[i].arena = which; s[i].mem = place(i, which, cd(cls), seed);
    remnants(i, cls, s[i].mem, seed);
    Obj* o = nullptr; unsigned char* m = s[i].mem;
    int r = sut([&] { o = cd(cls).make(m); });
    s[i].o = o; return r;
  }
  void kill(int i) {
    if (!s[i].o) return;
    dropTwin(i);
    Obj* o = s[i].o; unsigned char* m = s[i].mem; size_t n = cd(s[i].cls).size;
    int r = sut([&] { o->~Obj(); });
    if (r) viol("destructor-throws", "destroying a filter failed");
    memset(m, fillByte, n);             // the memory is reused by somebody else
    s[i] = Slot();
  }
  void dropTwin(int i) { if (s[i].twin) { s[i].twin->~Obj(); s[i].twin = nullptr; } }
  void desync(int i) { for (int j = 0; j < MAXSLOT; j++) sync[i][j].common = sync[j][i].common = 0; }
  void readCoefs(int i, const Snap* from) {
    Snap tmp; if (!from) { snapshot(s[i].o, tmp); from = &tmp; }
    s[i].nc = from->nst;  // sections outside the cascade in use pass the signal on, through their own delay line
    for (int k = 0; k < from->nst; k++) s[i].c[k] = k < from->nidx ? from->st[k] : Coef();
    s[i].G = noiseGain(s[i].c, s[i].nc); s[i].Gacc = std::fmax(s[i].Gacc, s[i].G);
  }
  // no operation costs more than it costs a brand new filter (up to a factor and a constant that have room for any
  // sensible way to write it)
  void bounded(const Slot& t, const Ref* r, int w, uint64_t used, const char* what, const Op* o = nullptr) {
    if (!oWork || !r || stop) return;
    uint64_t lim = w == W_SAMPLE ? 2 * r->work[w] + 64 : 2 * r->work[w] + 1000; cnt(N_WORKCHK);
    if (used > lim) viol("work-not-bounded", fmt("%s: %s took %llu steps, with a brand new filter %llu%s", cd(t.cls).name().c_str(), what, (unsigned long long)used, (unsigned long long)r->work[w], o ? (" (" + opText(*o).substr(0, 200) + ")").c_str() : ""));
  }
  void configured(int i, const Ref* r, const Params& p, bool fresh) {
    Slot& t = s[i]; t.as = r;
    if (oModel || oSettle || oTopo || oType || oTone) {
      if (r && !oExposed && r->outcome == 0) readCoefs(i, &r->s); else readCoefs(i, nullptr);
      if (!t.fed) t.Gacc = t.G;
    }
    if (!fresh) { t.p = p; t.configured = true; t.key = paramsText(p); t.tm = tame(cd(t.cls), p); }
    if (oIndep && !sc.quiet) { t.haveExpect = true; snapshot(t.o, t.expect); }
  }
  void note(int i, int kind, int outcome) {
    Slot& t = s[i]; const ClassDesc* d = t.cls >= 0 ? &cd(t.cls) : nullptr;
    uint64_t h = mix(11, (uint64_t)kind); h = mix(h, (uint64_t)outcome);
    if (d) { h = mix(h, (uint64_t)(d->fam * 64 + d->kind * 3 + d->topo)); h = mix(h, (uint64_t)d->maxOrder); if (t.configured) h = mix(h, (uint64_t)normalised(*d, t.p).order + 5); }
    h = mix(h, (uint64_t)(t.fed * 1 + t.dontcare * 2 + t.configured * 4 + t.rejectedLast * 8 + t.retuned * 16)); h = mix(h, (uint64_t)(t.lastKind + 1));
    if (sh->nstates < MAXOPS * 2) sh->states[sh->nstates++] = h;
    sh->hist = mix(sh->hist, h); t.lastKind = kind;
  }
  void log(int out, uint64_t h) { sh->opOut[cur] = (uint8_t)(out ? 1 : 0); sh->opHash[cur] = mix(sh->opHash[cur], mix(h, (uint64_t)(out ? 1 : 0))); sh->hash = mix(sh->hash, sh->opHash[cur]); }
  bool typedOk(int st, double out, double e, double tol) {
    if (!std::isfinite(e)) return true;
    if (st == S_DOUBLE || st == S_LDBL) return std::fabs(out - e) <= tol;
    if (st == S_FLOAT) { if (std::fabs(e) > 1e37) return true; float lo = (float)(e - tol), hi = (float)(e + tol); return out >= lo && out <= hi; }
    double lim = st == S_SHORT ? 32000 : st == S_INT ? 2e9 : st == S_UINT ? 4e9 : st == S_CHAR ? 127 : 9e18; if (std::fabs(e) + tol > lim || (st == S_UINT && e - tol <= -1)) return true;
    return out >= std::trunc(e - tol) && out <= std::trunc(e + tol);
  }

  // ---- operations --------------------------------------------------------------------------------------------------
  void opNew(const Op& o, const Ref* r) {
    kill(o.a); desync(o.a); if (stop) return;
    int out = createIn(o.a, 0, o.cls, o.seed);
    if (out || !s[o.a].o) { viol("constructor-fails", "constructing a filter failed"); return; }
    configured(o.a, r, Params(), true);
    Snap sn; obs(s[o.a].o, sn); log(0, hashSnap(sn)); note(o.a, O_NEW, 0);
  }
  void opSetup(const Op& o, const Ref* r) {
    Slot& t = s[o.a]; if (!t.o || !fits(cd(t.cls), o.p)) return;
    const ClassDesc& d = cd(t.cls);
    Snap before; if (oAtomic || oRef) obs(t.o, before);
    Obj* q = t.o; int out; g_what = 0;
    if (d.kind == K_SOS && o.p.dflt && !t.configured && !t.fed && !t.rejectedLast) {      // nothing has happened to it yet: build it from the coefficients instead
      alignas(64) static unsigned char other[65536]; Obj* maker = d.make(other); unsigned char* m = t.mem;
      sut([&] { q->~Obj(); }); memset(m, fillByte, d.size); remnants(o.a, t.cls, m, o.seed); t.o = nullptr;
      out = sut([&] { t.o = maker->build(m, o.p); });
      if (out) sut([&] { t.o = classes()[(size_t)t.cls].make(m); });
      q = t.o;
    } else {
      if (o.n > 0) {                    // the same request over and over
        int all = 0, first = -1, cntRej = 0;
        all = sut([&] { for (int k = 0; k < o.n; k++) { int one = 0; TRY_ { q->setup(o.p); } CATCH_(one) if (first < 0) first = one; cntRej += one != 0; } });
        cnt(N_REPEATREQ, (uint64_t)o.n);
        bounded(t, r, W_SETUP, g_lastWork / (uint64_t)o.n, "one of many equal requests", &o); if (stop) return;
        if (all) return viol("repeat-throws", "repeating a request threw an unexpected exception");
        if (oVerdict && cntRej && cntRej != o.n) return viol("verdict-depends-on-history", fmt("%s: of %d equal requests %d were rejected", d.name().c_str(), o.n, cntRej));
      }
      out = sut([&] { q->setup(o.p); });
      bounded(t, r, W_SETUP, g_lastWork, out ? "refusing a request" : "a request", &o); if (stop) return;
    }
    Norm n = normalised(d, o.p); std::string req = paramsText(o.p);
    if (t.lastReq == req) cnt(N_REPEATREQ);
    t.lastReq = req;
    if (oVerdict) {
      if (r && (r->outcome != 0) != (out != 0))
        return viol("verdict-depends-on-history", fmt("%s: the request was %s here but a brand new filter %s it", d.name().c_str(), out ? "rejected" : "accepted", r->outcome ? "rejects" : "accepts"));
      if (!out && mustReject(d, o.p)) return viol("bad-request-accepted", fmt("%s: a request with an invalid frequency, order or NaN was accepted", d.name().c_str()));
      if (!out && !sc.quiet) for (int i = 0, ns = q->storageStages(); i < ns; i++) { Coef c = q->storage(i); for (int k = 0; k < 6; k++) if (cf(c)[k] != cf(c)[k])
        return viol("nan-coefficients", fmt("%s: accepted, but a coefficient of section %d is NaN", d.name().c_str(), i)); }
    }
    Snap after; obs(t.o, after);
    if (out) {
      cnt(N_REJECT); if (!mustReject(d, o.p)) cnt(N_REJECT_LATE);
      if (oAtomic) { std::string why; if (!sameExact(after, before, why)) return viol("rejected-request-changed-filter", fmt("%s: after a rejected request %s", d.name().c_str(), why.c_str())); }
      t.rejectedLast = true;
    } else {
      cnt(N_ACCEPT);
      if (t.configured && t.fed) cnt(N_RETUNE_RUNNING);
      if (t.configured && normalised(d, t.p).order != n.order) cnt(N_ORDERCHG);
      if (t.configured && hzForm(d, o.p) && hzForm(d, t.p) && o.p.fs != t.p.fs) cnt(N_CLOCKJUMP);
      if (oRef && r && r->outcome == 0 && !sc.quiet) { std::string why; if (!sameApprox(after, r->s, why)) return viol("differs-from-fresh-filter", fmt("%s: compared with a brand new filter given the same request, %s", d.name().c_str(), why.c_str())); }
      bool changed = !t.configured || t.key != req;
      if (changed) { desync(o.a); if (t.histHash) { t.histHash = mix(mix(t.histHash, 77), std::hash<std::string>()(req)); t.retuned = true; } }
      dropTwin(o.a);
      configured(o.a, r, o.p, false); t.rejectedLast = false;
      if (oIntro && !sc.quiet) { introspect(o.a, after, 0, false, cplx()); if (stop) return; }
    }
    if (oIndep && !out) {}
    log(out, oEnv ? mix(hashSnap(after), g_what) : hashSnap(after)); note(o.a, O_SETUP, out);
  }
  void opFeed(const Op& o) {
    int sl[MAXSLOT], ns = 0;
    for (int i = 0; i < MAXSLOT; i++) if ((o.mask >> i & 1) && s[i].o) sl[ns++] = i;
    if (!ns) return;
    int n = o.n; if (n > 20000) n = 20000;
    static double in[20001], out[MAXSLOT][20001]; static unsigned char ty[20001]; static double twin[MAXSLOT][20001];
    Stream str(o); Rng tr(o.seed ^ 0x51); double amax = 0;
    for (int j = 0; j < n; j++) {
      double x = str.next(); int st = outlier(o.gen) ? 0 : o.st == S_MIX ? (int)tr.below(S_COUNT - 1) : o.st; if (o.st == S_MIX && st >= S_MIX) st++;
      if (st == S_FLOAT) x = (float)x;
      else if (st >= S_INT && st != S_LDBL) { x = std::nearbyint(x * (st == S_LONG && o.amp > 100 ? 1e6 : st == S_UINT && o.amp > 100 ? 1e5 : 1000)); double lim = st == S_SHORT ? 30000 : st == S_INT ? 2e9 : st == S_UINT ? 4e9 : st == S_CHAR ? 120 : 4e15; if (st == S_UINT) x = std::fabs(x); if (st == S_CHAR) x = std::nearbyint(x / 20); x = std::fmin(lim, std::fmax(-lim, x)); }
      in[j] = x; ty[j] = (unsigned char)st; if (!(std::fabs(x) <= amax)) amax = std::fabs(x);
    }
    if (o.gen == G_NAN || o.gen == G_NANIN) cnt(N_G_NAN);
    if (o.gen == G_PINF || o.gen == G_NINF) cnt(N_G_INF);
    if (o.gen == G_DENORM) cnt(N_G_DENORM);
    if (o.gen == G_HUGE) cnt(N_G_HUGE);
    if (o.gen == G_SPIKE) cnt(N_G_SPIKE);
    if (o.st) cnt(N_TYPED, (uint64_t)n);
    uint64_t wmax[MAXSLOT] = {}; int wat[MAXSLOT] = {};
    int res = sut([&] {
      for (int j = 0; j < n; j++) for (int k = 0; k < ns; k++) {
        Obj* q = s[sl[k]].o; double x = in[j], y; uint64_t w0 = g_work;
        switch (k == 0 ? ty[j] : 0) {
          case S_FLOAT: y = q->fF((float)x); break; case S_INT: y = q->fI((int)x); break;
          case S_SHORT: y = q->fS((short)x); break; case S_LONG: y = (double)q->fL((long)x); break;
          case S_UINT: y = q->fU((unsigned)x); break; case S_CHAR: y = q->fC((signed char)x); break; case S_LDBL: y = (double)q->fX(x); break;
          default: y = q->fD(x);
        }
        if (oWork && g_work - w0 > wmax[k]) { wmax[k] = g_work - w0; wat[k] = j; }
        out[k][j] = y;
      }
    });
    cnt(N_FEED); sh->samples += (uint64_t)n * (uint64_t)ns;
    if (res) return viol("filter-throws", "processing a sample threw an exception");
    for (int k = 0; k < ns; k++) { bounded(s[sl[k]], s[sl[k]].as, W_SAMPLE, wmax[k], fmt("sample %d of this stream (%g)", wat[k], in[wat[k]]).c_str()); if (stop) return; }
    uint64_t h = 3;
    for (int k = 0; k < ns; k++) for (int j = 0; j < n; j++) h = mix(h, bits(out[k][j]));
    // fresh twins created at the last reset
    for (int k = 0; k < ns; k++) if (s[sl[k]].twin) for (int j = 0; j < n; j++) twin[k][j] = s[sl[k]].twin->fD(in[j]);
    for (int k = 0; k < ns && !stop; k++) {
      Slot& t = s[sl[k]]; const ClassDesc& d = cd(t.cls);
      if (oModel) {
        for (int j = 0; j < n; j++) {
          if (t.dontcare) { cnt(N_MODELSKIP, (uint64_t)(n - j)); break; }      // until the next reset
          ld x = in[j];
          for (int q = 0; q < t.nc; q++) x = t.sec[q].run(d.topo, t.c[q], x, t.scale);
          if (!std::isfinite((double)x) || !(t.scale < 1e305L)) t.dontcare = true;
          if (t.dontcare) { cnt(N_MODELSKIP); continue; }
          double rel = 4e-14 * t.Gacc; if (rel < 1e-11) rel = 1e-11;
          if (!(rel < 1e-4)) { cnt(N_MODELSKIP); continue; }
          double tol = rel * (double)t.scale + 1e-300; cnt(N_MODELCMP);
          if (!typedOk(k == 0 ? ty[j] : 0, out[k][j], (double)x, tol))
            { viol("output-differs-from-model", fmt("%s: sample %d of this stream is %.17g, the reference model gives %.17g (tolerance %.3g)", d.name().c_str(), j, out[k][j], (double)x, tol)); break; }
        }
      }
      if (stop) break;
      if (oTwin && t.twin && !o.st) for (int j = 0; j < n; j++) {
        double a = out[k][j], b = twin[k][j];
        if (eqB(a, b)) continue;
        if (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 1e-13 * (double)t.scale) continue;
        viol("reset-differs-from-fresh", fmt("%s: sample %d after reset is %.17g, a brand new filter gives %.17g", d.name().c_str(), j, a, b)); break;
      }
      if (oSettle || oTopo || oType || oTone) {
        const bool far = oSettle || oTopo; const double lin = far ? 1e140 : 1e19, lout = far ? 1e150 : 1e22;
        if (!(amax < lin) || (t.configured && !t.tm.ok)) t.wild = true;
        if (amax < lin) t.amp = std::fmax(t.amp, amax);
        for (int j = 0; j < n; j++) { double y = std::fabs(out[k][j]); if (!(y < lout)) t.wild = true; else if (far && y > 1e22) t.amp = std::fmax(t.amp, y); }
      }
    }
    if (stop) return;
    if (oSettle || oTopo || oType) pairs(o, sl, ns, in, out, ty, n);
    uint64_t fh = mix(mix(mix(mix(5, (uint64_t)o.gen), o.seed), bits(o.amp)), (uint64_t)n * 16 + (uint64_t)o.st);
    for (int k = 0; k < ns; k++) {
      Slot& t = s[sl[k]]; t.histHash = mix(t.histHash ? t.histHash : 1, fh); if (n) t.fed = true;
      for (int j = 0; j < MAXSLOT; j++) if (j != sl[k]) { bool in_ = false; for (int q = 0; q < ns; q++) if (sl[q] == j) in_ = true;
        if (in_) { if (k < 1 || true) sync[sl[k]][j].common += n; } else { if (sync[sl[k]][j].common) { cnt(N_LOSTSAMPLES, (uint64_t)n); } sync[sl[k]][j].common = sync[j][sl[k]].common = 0; } }
      note(sl[k], O_FEED, o.gen + 16 * (o.st != 0));
    }
    if (oIntro || oIndep) {}
    log(0, h);
  }
  void pairs(const Op& o, int* sl, int ns, const double* in, double (*out)[20001], const unsigned char* ty, int n) {
    for (int x = 0; x < ns && !stop; x++) for (int y = x + 1; y < ns && !stop; y++) {
      Slot &a = s[sl[x]], &b = s[sl[y]]; const ClassDesc &da = cd(a.cls), &db = cd(b.cls);
      if (da.fam != db.fam || da.kind != db.kind || da.maxOrder != db.maxOrder) continue;
      if (a.configured != b.configured || a.key != b.key) continue;
      bool sameTopo = da.topo == db.topo;
      bool exact = a.histHash == b.histHash && (!a.retuned || sameTopo) && a.retuned == b.retuned;
      double G = std::fmax(a.Gacc, b.Gacc); if (!(G < 1e6)) { if (!(oType && exact && sameTopo)) continue; }
      double mag = 0; for (int j = 0; j < n; j++) { if (std::isfinite(in[j])) mag = std::fmax(mag, std::fabs(in[j])); }
      if (oType && exact && sameTopo) {
        // the first slot got the typed samples, the second the same values as doubles
        for (int j = 0; j < n; j++) {
          int st = x == 0 ? ty[j] : 0; double e = out[y][j]; cnt(N_PAIRCMP);
          if (!std::isfinite(e)) break;
          mag = std::fmax(mag, std::fabs(e));
          if (!typedOk(st, out[x][j], e, 1e-12 * mag))
            { static const char* TN[] = {"double", "float", "int", "short", "long", "", "unsigned", "signed char", "long double"}; viol("sample-type-feeds-back", fmt("%s: %s sample %d returned %.17g, the double stream gives %.17g", da.name().c_str(), TN[st], j, out[x][j], e)); break; }
        }
        continue;
      }
      bool settled = a.tm.ok && b.tm.ok && !a.wild && !b.wild;
      long N = settled ? std::max(a.tm.settle, b.tm.settle) : -1;
      if (oTopo && exact) {
        if (a.wild || b.wild) { bool fin = true; for (int j = 0; j < n; j++) if (!std::isfinite(out[x][j]) || std::fabs(out[x][j]) > 1e14) fin = false; if (!fin || !(a.amp < 1e12)) continue; }
        double m2 = std::fmax(a.amp, b.amp);
        for (int j = 0; j < n; j++) { if (std::isfinite(out[y][j])) m2 = std::fmax(m2, std::fabs(out[y][j])); if (std::isfinite(out[x][j])) m2 = std::fmax(m2, std::fabs(out[x][j])); }
        a.amp = std::fmax(a.amp, m2); b.amp = std::fmax(b.amp, m2);
        double tol = std::fmax(1e-9, 1e-12 * G * Gamp(a, b)) * m2;
        for (int j = 0; j < n; j++) { cnt(N_PAIRCMP);
          if (!std::isfinite(out[x][j]) && !std::isfinite(out[y][j])) break;
          if (!(std::fabs(out[x][j] - out[y][j]) <= tol)) { viol("topologies-disagree", fmt("%s gives %.17g for sample %d, %s gives %.17g", da.name().c_str(), out[x][j], j, db.name().c_str(), out[y][j])); break; } }
        continue;
      }
      if (N >= 0 && (oSettle || oTopo)) {
        long c0 = sync[sl[x]][sl[y]].common; double m2 = mag;
        if (c0 + n <= N) continue;
        long from = N > c0 ? N - c0 : 0;
        for (long j = from; j < n; j++) m2 = std::fmax(m2, std::fabs(out[y][j]));
        double rest = std::fmax(a.amp, b.amp); cnt(N_SETTLECHK);
        for (long j = from; j < n; j++) { cnt(N_PAIRCMP);
          // every further period takes another thirty decades off what the disturbance left behind
          double tol = std::fmax(1e-9, 1e-12 * G * Gamp(a, b)) * m2 + rest * std::pow(1e-30, (double)((c0 + j) / std::max(N, 1L))) + 1e-280;
          if (!(std::fabs(out[x][j] - out[y][j]) <= tol)) { viol(sameTopo ? "disturbance-lasts" : "replicas-do-not-reconverge",
            fmt("%s: %ld samples after the last disturbance (bound %ld) the output is %.17g, the undisturbed filter gives %.17g", da.name().c_str(), c0 + j, N, out[x][j], out[y][j])); break; } }
      }
    }
    (void)o;
  }
  static double Gamp(const Slot& a, const Slot& b) { (void)a; (void)b; return 1; }
  void opReset(const Op& o) {
    Slot& t = s[o.a]; if (!t.o) return;
    Snap before; if (oTwin) obs(t.o, before);
    Obj* q = t.o; int out = sut([&] { for (int k = -1; k < o.n; k++) q->reset(); });
    bounded(t, t.as, W_RESET, g_lastWork / (uint64_t)(o.n + 1), "reset"); if (stop) return;
    if (out) return viol("reset-throws", "reset() threw an exception");
    cnt(N_RESET); if (t.fed) cnt(N_RESET_USED);
    Snap after; obs(t.o, after);
    if (oTwin) {
      std::string why; if (!sameExact(after, before, why)) return viol("reset-changed-configuration", fmt("%s: after reset %s", cd(t.cls).name().c_str(), why.c_str()));
      dropTwin(o.a); t.twinMem = place(o.a, 2, cd(t.cls), o.seed); memset(t.twinMem, fillByte, cd(t.cls).size);
      Obj* tw = nullptr; int r = sut([&] { tw = cd(t.cls).make(t.twinMem); if (t.configured) tw->setup(t.p); });
      if (!r) t.twin = tw; else if (tw) tw->~Obj();
      // the twin is a brand new filter: what the delay lines hold must not matter to anything observable
      if (t.twin) { Snap ts; obs(t.twin, ts); if (!sameApprox(after, ts, why)) return viol("reset-differs-from-fresh", fmt("%s: after reset, compared with a brand new filter, %s", cd(t.cls).name().c_str(), why.c_str())); }
    }
    clearState(o.a); desync(o.a);
    log(0, hashSnap(after)); note(o.a, O_RESET, 0);
  }
  void clearState(int i) { Slot& t = s[i]; for (auto& q : t.sec) q.reset(); t.scale = 0; t.dontcare = false; t.fed = false; t.histHash = 0; t.retuned = false; t.amp = 0; t.wild = false; t.Gacc = t.G; }
  static bool viaTemp(const Op& o) { return (o.seed / 8) & 1; }      // move construction, assignment from a temporary
  void opCopy(const Op& o) {
    if (o.a == o.b || !s[o.b].o) return;
    kill(o.a); desync(o.a); if (stop) return;
    Slot& src = s[o.b]; int cls = src.cls; Slot t = src; t.twin = nullptr; t.arena = 0; t.mem = place(o.a, 0, cd(cls), o.seed);
    remnants(o.a, cls, t.mem, o.seed);
    const Obj* q = src.o; Obj* c = nullptr; bool temp = viaTemp(o);
    alignas(64) static unsigned char tmp[65536];
    int out = sut([&] { if (temp) { Obj* z = q->copyTo(tmp); c = z->moveTo(t.mem); z->~Obj(); memset(tmp, fillByte, cd(cls).size); } else c = q->copyTo(t.mem); });
    if (!temp) bounded(src, src.as, W_COPY, g_lastWork, "copying");
    if (stop) return;
    if (out) return viol("copy-throws", "copying a filter threw an exception");
    t.o = c; s[o.a] = t; cnt(N_COPY);
    Snap sn; obs(c, sn);
    if (oIndep && !sc.quiet) { Snap ss; obs(src.o, ss); std::string why; if (!sameApprox(sn, ss, why)) return viol("copy-differs", fmt("%s: compared with its source, the copy's %s", cd(cls).name().c_str(), why.c_str())); s[o.a].expect = sn; s[o.a].haveExpect = true; }
    if (oExposed) readCoefs(o.a, nullptr);
    log(0, hashSnap(sn)); note(o.a, O_COPY, 0);
  }
  void opAssign(const Op& o) {
    Slot &a = s[o.a], &b = s[o.b];
    if (!a.o || !b.o || a.cls != b.cls) return;
    Obj *x = a.o, *y = b.o; int out = sut([&] { for (int k = -1; k < o.n; k++) x->assign(*y, viaTemp(o)); });
    if (!viaTemp(o)) bounded(b, b.as, W_ASSIGN, g_lastWork / (uint64_t)(o.n + 1), "assigning");
    a.as = b.as; if (stop) return;
    if (out) return viol("assign-throws", "assigning a filter threw an exception");
    cnt(N_ASSIGN); desync(o.a); dropTwin(o.a);
    Snap sn; obs(x, sn); Snap sb; obs(y, sb);
    if (oIndep && !sc.quiet) {
      std::string why;
      if (b.haveExpect && !sameExact(sb, b.expect, why)) return viol("assignment-changed-source", fmt("%s: after being assigned from, the source's %s", cd(a.cls).name().c_str(), why.c_str()));
      if (!sameApprox(sn, sb, why)) return viol("assignment-incomplete", fmt("%s: compared with its source, the assigned-to filter's %s", cd(a.cls).name().c_str(), why.c_str()));
    }
    a.p = b.p; a.configured = b.configured; a.key = b.key; a.tm = b.tm; a.wild = b.wild;
    if (o.a != o.b) { for (int i = 0; i < MAXST; i++) a.c[i] = b.c[i]; a.nc = b.nc; a.G = b.G; }
    if (oExposed) readCoefs(o.a, nullptr);
    // whether the memory of past samples is taken over, kept or cleared is left open: start from a known state
    out = sut([&] { x->reset(); }); if (out) return viol("reset-throws", "reset() threw an exception");
    clearState(o.a); desync(o.a);
    if (oIndep && !sc.quiet) { a.expect = sn; a.haveExpect = true; }
    log(0, hashSnap(sn)); note(o.a, O_ASSIGN, o.a == o.b);
  }
  void opReloc(const Op& o) {
    Slot& t = s[o.a]; if (!t.o) return;
    int w = 1 - t.arena; unsigned char* m = place(o.a, w, cd(t.cls), o.seed); Obj* old = t.o; Obj* c = nullptr; unsigned char* om = t.mem;
    remnants(o.a, t.cls, m, o.seed);
    int out = sut([&] { c = viaTemp(o) ? old->moveTo(m) : old->copyTo(m); old->~Obj(); });
    if (out) return viol("copy-throws", "copying a filter threw an exception");
    memset(om, fillByte, cd(t.cls).size);
    t.o = c; t.mem = m; t.arena = w; cnt(N_RELOC);
    Snap sn; obs(c, sn);
    if (oIndep && t.haveExpect) { std::string why; if (!sameApprox(sn, t.expect, why)) return viol("copy-differs", fmt("%s: after moving to other memory, %s", cd(t.cls).name().c_str(), why.c_str())); t.expect = sn; }
    log(0, hashSnap(sn)); note(o.a, O_RELOC, 0);
  }
  void opQuery(const Op& o) {
    Slot& t = s[o.a]; if (!t.o) return;
    Obj* q = t.o; const ClassDesc& d = cd(t.cls); Snap before; if (oIntro) obs(q, before);
    bool fired0 = g_alloc.fired; g_alloc.fired = false;
    cplx h; int out = sut([&] { for (int k = 0; k < o.n; k++) { TRY_ { h = q->response(o.amp); } CATCH_(dummy) } h = q->response(o.amp); });
    if (!out) bounded(t, t.as, W_RESPONSE, g_lastWork / (uint64_t)(o.n + 1), "response()"); if (stop) return;
    bool inRange = o.amp >= 0 && o.amp <= 0.5;
    if (!inRange) cnt(N_QUERYBAD);
    uint64_t lh = out ? 9 : mix(bits(h.real()), bits(h.imag()));
    bool doPz = d.designed() || !g_noPz;
    std::vector<PZ> v; v.reserve(64); int out2 = 0; size_t np = 0;
    if (doPz) {
      out2 = sut([&] { np = q->poleZeros(v); });
      if (!out2) bounded(t, t.as, W_POLES, g_lastWork, "getPoleZeros()"); if (stop) return;
      bool known = d.designed();       // for these the pole/zero report never needs a division that could fail
      if (g_alloc.fired) cnt(N_ALLOCQ);
      if (known || opt.inject || !o.m) { if (!out2) { lh = mix(lh, np); if (known) for (auto& z : v) lh = mix(mix(lh, bits(z.p1.real())), bits(z.z1.imag())); } }
      if (out2 && g_alloc.fired) lh = 0xA110C;       // a failed query carries no result
    }
    std::vector<PZ> cz; cz.reserve(64); size_t nc = 0; bool haveCz = false;
    if (d.designed() && (o.seed & 2)) {                 // recovered from the sections, where their numerator has two zeros
      bool clean = true; int ns = q->numStages(); for (int i = 0; i < ns && i < MAXST; i++) { Coef c; if (sut([&] { c = q->indexed(i); })) clean = false; for (double x : {c.b0, c.b1, c.b2, c.a1, c.a2}) if (!(std::fabs(x) < 1e100)) clean = false; if (!(std::fabs(c.b0) > 1e-100)) clean = false; }
      if (clean) {
        int out4 = sut([&] { nc = q->cascadePoleZeros(cz); });
        if (out4 && g_alloc.fired) lh = 0xA110C;
        else if (out4) return viol("cascade-poles-unavailable", fmt("%s: the poles and zeros of its sections cannot be had", d.name().c_str()));
        else { haveCz = true; if (lh != 0xA110C) { lh = mix(lh, nc); for (auto& z : cz) lh = mix(mix(lh, bits(z.p1.real())), bits(z.z1.imag())); } }
      }
    }
    if (oIntro && d.fam == RBJ && (o.seed & 4)) {       // the delay lines it reports continue its stream
      alignas(64) static unsigned char buf[4096]; if (d.size <= sizeof buf) {
        double x[6], y[6] = {}, z[6] = {}; Rng r(o.seed); for (double& v_ : x) v_ = r.uniform(-1, 1) * (t.amp > 0 ? t.amp : 1);
        int o5 = sut([&] { q->peekNext(x, 6, y); }); Obj* c = nullptr; o5 |= sut([&] { c = q->copyTo(buf); for (int i = 0; i < 6; i++) z[i] = c->fD(x[i]); c->~Obj(); });
        if (o5) return viol("query-throws", fmt("%s: its delay lines cannot be read", d.name().c_str()));
        double m = 1e-300; for (double v_ : z) m = std::fmax(m, std::fabs(v_));
        for (int i = 0; i < 6; i++) { if (!std::isfinite(z[i])) break; if (!closeTo(y[i], z[i], 1e-9, 1e-12 * m)) return viol("delay-lines-differ", fmt("%s: sample %d continued from the delay lines it reports is %.17g, it returns %.17g", d.name().c_str(), i, y[i], z[i])); }
      }
    }
    int out3 = 0;
    if (o.m) { cnt(N_QUERYBAD); if (d.designed()) out3 = sut([&] { Coef c = q->indexed(o.m > 0 && o.m < 200 ? q->numStages() + o.m - 1 : o.m); lh = mix(lh, bits(c.b0)); }); }
    g_alloc.fired = g_alloc.fired || fired0;
    cnt(N_QUERY);
    Snap after; obs(q, after);
    if (oIntro) {
      std::string why;
      if (!sameExact(after, before, why)) return viol("query-changed-filter", fmt("%s: after a query %s", d.name().c_str(), why.c_str()));
      introspect(o.a, after, o.amp, inRange && !out, h);
      if (haveCz && !stop) {
        if ((int)nc != after.ns) return viol("wrong-number-of-poles", fmt("%s: %d pole/zero pairs for %d sections", d.name().c_str(), (int)nc, after.ns));
        for (int i = 0; i < after.nidx; i++) {
          const Coef& c = after.st[i]; auto agree = [&](cplx a, cplx b, double c1, double c2) { double m = 1 + std::fabs(c1) + std::fabs(c2); return std::abs(a + b + c1) <= 1e-9 * m && std::abs(a * b - c2) <= 1e-9 * m * m; };
          if (!agree(cz[(size_t)i].p1, cz[(size_t)i].p2, c.a1, c.a2) || !agree(cz[(size_t)i].z1, cz[(size_t)i].z2, c.b1 / c.b0, c.b2 / c.b0))
            return viol("section-poles-differ", fmt("%s: the poles or zeros recovered from section %d are not those of its coefficients", d.name().c_str(), i));
        }
      }
    }
    if (out3) out = out3;
    if (lh == 0xA110C) { sh->opKind[cur] = 1; log(0, hashSnap(after)); }
    else log(out, mix(lh, hashSnap(after)));
    note(o.a, O_QUERY, out + 2 * (out2 != 0));
  }
  void introspect(int i, const Snap& a, double f, bool haveH, cplx h) {
    Slot& t = s[i]; const ClassDesc& d = cd(t.cls); std::string nm = d.name();
    for (int k = 0; k < a.nidx; k++) for (int q = 0; q < 6; q++) if (!(std::fabs(cf(a.st[k])[q]) < 1e100) || !(std::fabs(a.st[k].a0) > 1e-100)) return;    // products of these overflow
    int want = t.configured && d.designed() ? (normalised(d, t.p).order * (d.band() ? 2 : 1) + 1) / 2 : (d.designed() ? 0 : d.stages());
    if (a.ns != want) return viol("wrong-number-of-sections", fmt("%s: reports %d sections, its configuration has %d", nm.c_str(), a.ns, want));
    for (int k = 0; k < a.nidx; k++) for (int q = 0; q < 6; q++) if (!closeTo(cf(a.idx[k])[q], cf(a.st[k])[q], 1e-12, 1e-300))
      return viol("getters-disagree", fmt("%s: the getters of section %d report %.17g, the running section has %.17g", nm.c_str(), k, cf(a.idx[k])[q], cf(a.st[k])[q]));
    auto H = [&](double x, ld& cond) { typedef std::complex<ld> C; ld w = 2 * 3.14159265358979323846264338327950288L * x; C z1(std::cos(w), -std::sin(w)), z2 = z1 * z1, r(1); cond = 1;
      for (int k = 0; k < a.nidx; k++) { C nu = (ld)a.st[k].b0 + (ld)a.st[k].b1 * z1 + (ld)a.st[k].b2 * z2, de = (ld)1 + (ld)a.st[k].a1 * z1 + (ld)a.st[k].a2 * z2;
        ld nm_ = std::fabs(a.st[k].b0) + std::fabs(a.st[k].b1) + std::fabs(a.st[k].b2), dm = 1 + std::fabs(a.st[k].a1) + std::fabs(a.st[k].a2);
        // relative uncertainty of the section's response due to rounding of its coefficients
        ld u = (std::abs(nu) > 0 ? nm_ / std::abs(nu) : INFINITY) + (std::abs(de) > 0 ? dm / std::abs(de) : INFINITY);
        cond += u; r *= nu / de; }
      return r; };
    auto chk = [&](double x, cplx got) {
      ld c; std::complex<ld> e = H(x, c); double m = 1e-14 * (double)c;
      if (!(m < 1e-5) || !std::isfinite((double)std::abs(e))) return;
      if (!(std::abs(got - cplx((double)e.real(), (double)e.imag())) <= m * 4 * (double)std::abs(e) + 1e-300))
        viol("response-differs-from-coefficients", fmt("%s: response(%g) is %g%+gi, its coefficients give %g%+gi", nm.c_str(), x, got.real(), got.imag(), (double)e.real(), (double)e.imag()));
    };
    static const double FR[7] = {0, 0.013, 0.07, 0.19, 0.31, 0.44, 0.5};
    for (int k = 0; k < 7 && !stop; k++) chk(FR[k], a.resp[k]);
    if (haveH && !stop) chk(f, h);
    if (stop) return;
    // poles and zeros reproduce the response up to a constant
    if (!d.designed()) for (int k = 0; k < a.nidx; k++) if (std::fabs(a.st[k].b0) < 1e-6 * (std::fabs(a.st[k].b1) + std::fabs(a.st[k].b2)) || a.st[k].b0 == 0) return;   // degree of the numerator is lower: not representable
    if (a.pzOut) return viol("poles-zeros-unavailable", fmt("%s: getPoleZeros() throws", nm.c_str()));
    if (a.npz != a.ns) return viol("wrong-number-of-poles", fmt("%s: %d pole/zero pairs for %d sections", nm.c_str(), a.npz, a.ns));
    std::complex<ld> k0(0); bool have = false; ld tol0 = 0;
    for (int k = 0; k < 12 && !stop; k++) {
      double x = 0.0217 + k * 0.0417 > 0.5 ? 0.49 : 0.0217 + k * 0.0417; ld c; std::complex<ld> e = H(x, c); ld m = 1e-11L * c * 8; if (!(m < 1e-3L) || !(std::abs(e) > 1e-200L)) continue;
      ld w = 2 * 3.14159265358979323846264338327950288L * x; std::complex<ld> z(std::cos(w), std::sin(w)), r(1); ld mm = 0;
      for (int q = 0; q < a.npz; q++) {
        auto fac = [&](cplx v) { std::complex<ld> u((ld)v.real(), (ld)v.imag()); ld dd = std::abs(z - u); mm += 1e-9L / (dd > 0 ? dd : 1e-30L); return z - u; };
        r *= fac(a.pz[q].z1) * fac(a.pz[q].z2); r /= fac(a.pz[q].p1) * fac(a.pz[q].p2);
      }
      m += mm; if (!(m < 1e-2L)) continue;
      std::complex<ld> kk = e / r;
      if (!have) { k0 = kk; have = true; tol0 = m; }
      else if (!(std::abs(kk - k0) <= (m + tol0) * std::abs(k0) + 1e-9L * std::abs(k0)))
        viol("poles-zeros-differ-from-coefficients", fmt("%s: the reported poles and zeros have another frequency response than the coefficients (ratio at f=%g: %g, elsewhere %g)", nm.c_str(), x, (double)std::abs(kk), (double)std::abs(k0)));
    }
  }
  void opTone(const Op& o) {
    Slot& t = s[o.a]; if (!t.o || !t.configured || !oTone) return;
    const ClassDesc& d = cd(t.cls); if (!t.tm.ok || t.tm.settle > 12000 || !(t.G < 1e6) || t.dontcare) return;
    if (t.wild) return;
    const int L = 512; Rng r(o.seed); std::vector<int> bin; std::vector<double> ph; Norm nm = normalised(d, t.p);
    auto add = [&](int b) { if (b < 0 || b > L / 2) return; for (int x : bin) if (x == b) return; bin.push_back(b); };
    add(0); add(L / 2); for (int i = 0; i < 8; i++) add((int)r.below(L / 2 + 1));
    int fc = (int)std::lround(nm.f * L); for (int i = -3; i <= 3; i++) add(fc + i);
    if (d.band()) for (double e : {nm.f - nm.w / 2, nm.f + nm.w / 2, nm.f - nm.w / 4, nm.f + nm.w / 4}) { add((int)std::lround(e * L)); add((int)std::lround(e * L) + 1); }
    std::vector<double> wave((size_t)L, 0.0); std::vector<cplx> X(bin.size());
    for (size_t i = 0; i < bin.size(); i++) { double p = r.uniform(0, 6.283); if (bin[i] == 0 || bin[i] == L / 2) p = 0; ph.push_back(p);
      for (int j = 0; j < L; j++) wave[(size_t)j] += std::cos(2 * 3.14159265358979323846 * (double)((long)bin[i] * j % L) / L + p); }
    Obj* q = t.o; std::vector<double> y((size_t)L); int warm = (t.tm.settle + L - 1) / L * L;
    int out = sut([&] { for (int j = 0; j < warm; j++) q->fD(wave[(size_t)(j % L)]); for (int j = 0; j < L; j++) y[(size_t)j] = q->fD(wave[(size_t)j]); });
    if (out) return viol("filter-throws", "processing a sample threw an exception");
    sh->samples += (uint64_t)(warm + L); t.fed = true; desync(o.a); t.histHash = mix(t.histHash ? t.histHash : 1, o.seed); cnt(N_TONE);
    std::vector<double> g, e; double top = 0; uint64_t h = 5;
    for (double v : y) h = mix(h, bits(v));
    for (size_t i = 0; i < bin.size(); i++) {
      cplx sy(0), sx(0);
      for (int j = 0; j < L; j++) { double a = 2 * 3.14159265358979323846 * (double)((long)bin[i] * j % L) / L; cplx w(std::cos(a), -std::sin(a)); sy += y[(size_t)j] * w; sx += wave[(size_t)j] * w; }
      g.push_back(std::abs(sy) / std::abs(sx)); e.push_back(specifiedGain(d, t.p, (double)bin[i] / L)); top = std::fmax(top, std::fmax(e.back(), 1.0));
    }
    for (size_t i = 0; i < bin.size() && !stop; i++) {
      if (e[i] < 0) continue;
      double tol = 2e-6 * e[i] + (1e-8 + 1e-12 * t.G) * top;
      if (!(std::fabs(g[i] - e[i]) <= tol)) viol("wrong-gain", fmt("%s (%s): after %d samples a tone at normalised frequency %g leaves with gain %.9g, specified is %.9g", d.name().c_str(), paramsText(t.p).c_str(), warm, (double)bin[i] / L, g[i], e[i]));
    }
    log(0, h); note(o.a, O_TONE, 0);
  }
  void decoy(const Op& o, int i) {      // unrelated filters used in between (environments >= 2)
    if (env < 2 || env >= ENV_THREAD) return;
    const std::vector<ClassDesc>& cl = classes(); Rng dr(mix(mix((uint64_t)i * 7919u, (uint64_t)env), o.seed)); size_t c = (size_t)dr.below(cl.size());
    // half of them are of the very kind that the next request goes to, and ask for nearly the same
    const Op* nx = nullptr; int nc = -1;
    if (dr.chance(0.5)) for (size_t k = (size_t)i; k < sc.ops.size() && k < (size_t)i + 3 && !nx; k++) if (sc.ops[k].k == O_SETUP && s[sc.ops[k].a].o) { nx = &sc.ops[k]; nc = s[nx->a].cls; }
    if (nx) { c = (size_t)nc; if (dr.chance(0.5)) { size_t k0 = (size_t)dr.below(cl.size()); for (size_t k = 0; k < cl.size(); k++) { const ClassDesc& e = cl[(k0 + k) % cl.size()]; if (e.fam == cl[c].fam && e.kind == cl[c].kind && (e.maxOrder == cl[c].maxOrder || e.fam != CUS)) { c = (k0 + k) % cl.size(); break; } } } }
    const ClassDesc& d = cl[c]; static unsigned char* buf = nullptr; if (!buf) buf = (unsigned char*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    Params p; p.form = F_N; p.f = 0.1 + 0.01 * (i % 20); p.w = 0.05; p.g = 6 - i % 13; if (d.fam == RBJ) { p.g = 1.5; p.r = 0.7; } else p.r = 1 + i % 3; p.order = d.maxOrder;
    if (d.kind == K_ONE) p.extra = {0.5, 0.25}; else if (d.kind == K_TWO) p.extra = {0.5, 1, 0.5, 2}; else if (d.kind == K_RAW) { p.form = 0; p.extra = {1, -0.5, 0.25, 1, 2, 1}; }
    else if (d.kind == K_SOS) for (int k = 0; k < d.maxOrder; k++) for (double v : {1.0, 2.0, 1.0, 1.0, -0.5, 0.25}) p.extra.push_back(v);
    if (nx && fits(d, nx->p)) {
      p = nx->p; if (p.order > d.maxOrder) p.order = d.maxOrder;
      switch (dr.below(6)) { case 0: p.f *= dr.uniform(0.5, 1.1); break; case 1: p.w *= dr.uniform(0.5, 1.5); break; case 2: p.g = dr.chance(0.5) ? -p.g : p.g * dr.uniform(0.5, 1.5); break; case 3: p.r *= dr.uniform(0.5, 1.5); break; case 4: if (p.order > 1) p.order--; break; default: break; }
      if (!p.extra.empty() && dr.chance(0.5)) p.extra[(size_t)dr.below(p.extra.size())] *= 0.9;
      Params q = p; sut([&] { Obj* z = d.make(buf); TRY_ { z->setup(q); for (int k = 0; k < 3; k++) z->fD(1 + k); } CATCH_(dummy) z->~Obj(); });
      return;
    }
    sut([&] { Obj* q = d.make(buf); q->setup(p); for (int k = 0; k < 5; k++) q->fD(1 + k); Obj* z = q->copyTo(buf + 32768); if (i & 1) { Params b = p; b.f = 2; z->setup(b); } z->~Obj(); q->~Obj(); });
  }
  bool wantsStop(int out) { return opt.stopOnReject && out; }

  void run(int start) {
    if (start > 0) {      // restart after a crash: filters that existed are built anew
      std::vector<int> cl = resolveClasses(sc); int slot[MAXSLOT]; for (int& x : slot) x = -1;
      for (int i = 0; i < start && i < (int)sc.ops.size(); i++) { const Op& o = sc.ops[(size_t)i]; if (o.k == O_NEW) slot[o.a] = o.cls; else if (o.k == O_COPY && slot[o.b] >= 0 && o.a != o.b) slot[o.a] = slot[o.b]; else if (o.k == O_DESTROY) slot[o.a] = -1; }
      for (int i = 0; i < MAXSLOT; i++) if (slot[i] >= 0) createIn(i, 0, slot[i], (uint64_t)i);
    }
    for (cur = start; cur < (int)sc.ops.size() && !stop; cur++) {
      const Op& o = sc.ops[(size_t)cur]; sh->op = cur; sh->opOut[cur] = 0; if (sh->opHash[cur] == 0 || start >= 0) sh->opHash[cur] = 0;
      decoy(o, cur);
      const Ref* r = cur < (int)refs.size() ? refs[(size_t)cur] : nullptr;
      switch (o.k) {
        case O_NEW: opNew(o, r); break;
        case O_SETUP: opSetup(o, r); break;
        case O_FEED: opFeed(o); break;
        case O_RESET: opReset(o); break;
        case O_COPY: opCopy(o); break;
        case O_ASSIGN: opAssign(o); break;
        case O_DESTROY: if (s[o.a].o) { kill(o.a); desync(o.a); cnt(N_DESTROY); note(o.a, O_DESTROY, 0); } break;
        case O_RELOC: opReloc(o); break;
        case O_QUERY: opQuery(o); break;
        case O_ALLOC: if (opt.inject) { g_alloc.failAfter = o.m; g_alloc.single = o.b; if (o.m >= 0) cnt(N_ALLOCARMED); } break;
        case O_TONE: opTone(o); break;
        default: break;
      }
      if (stop) break;
      if (opt.stopOnReject && (o.k == O_SETUP || o.k == O_QUERY) && sh->opOut[cur]) { sh->rejectStop = 1; return; }
      if (oIndep) for (int i = 0; i < MAXSLOT && !stop; i++) if (s[i].o && s[i].haveExpect && (o.k == O_FEED || i != o.a)) {
        Snap now; snapshot(s[i].o, now); std::string why;
        if (!sameExact(now, s[i].expect, why)) viol("other-filter-changed", fmt("%s: %s on another filter (or processing samples) changed this one: %s", cd(s[i].cls).name().c_str(), opText(o).substr(0, 12).c_str(), why.c_str()));
      }
      if (oIndep || oEnv) checkCanaries(opText(o).substr(0, opText(o).find(' ')).c_str());
      if (oEnv && !stop && fpControl() != fp0) viol("fp-environment-changed", fmt("the floating-point environment changed (control %x, was %x)", fpControl(), fp0));
      if (oModel && !stop && !sc.quiet && (prop == "C01") && o.k == O_FEED) for (int i = 0; i < MAXSLOT && !stop; i++) if (s[i].o && (o.mask >> i & 1)) {
        for (int k = 0; k < s[i].nc && !stop; k++) { Coef c = s[i].o->storage(k); for (int q = 0; q < 6; q++) if (q != 3 && !closeTo(cf(c)[q], cf(s[i].c[k])[q], 1e-9, 1e-300) && std::isfinite(cf(s[i].c[k])[q]))
          { viol("processing-changed-coefficients", fmt("%s: section %d changed while samples were processed (%.17g, was %.17g)", cd(s[i].cls).name().c_str(), k, cf(c)[q], cf(s[i].c[k])[q])); break; } }
      }
    }
    if (!stop) for (int i = 0; i < MAXSLOT; i++) if (s[i].o) kill(i);
  }
};
}
void execute(const Scenario& sc, const RefMap& refs, const RunOpts& o, Shared* sh) {
  for (int rep = 0; rep < o.repeat; rep++) {
    g_alloc.failAfter = -1;
    World* w = new World(sc, refs, o, sh);
    w->run(o.start);
    bool stop = w->stop || sh->rejectStop;
    delete w;
    g_alloc.failAfter = -1; g_alloc.fill = -1; g_scrub = -1;
    sh->cnt[N_ALLOCFIRED] = g_alloc.failed;
    (rep == 0 ? sh->live1 : rep == 1 ? sh->live2 : sh->live3) = g_alloc.live;
    if (stop) break;
  }
  sh->finished = 1;
}
bool fitsC(int cls, const Params& p) { return fits(classes()[(size_t)cls], p); }
