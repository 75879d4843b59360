#ifdef THREADS
// Threads under the simulator's control. The code of the library (and nothing else) is compiled with gcc's
// -fsanitize=thread; the callbacks which the compiler inserts at every memory access are implemented here instead of
// in libtsan, so that each access is a point at which the simulator may stop the running thread and let another one
// go on. Exactly one simulated thread runs at any time; who runs next is decided by the scenario's list of
// preemptions alone. Mutexes, once-flags and guards of static objects are simulated as well.
#include "exec.hpp"
#include "alloc.hpp"
#include "gen.hpp"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <set>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

bool fitsC(int cls, const Params& p);
enum { MAXTH = 4, MAXREC = 60000, MAXSW = 2000, FAIR = 400000 };
static const size_t TARENA = [] { size_t m = 4096; for (auto& c : classes()) m = std::max(m, c.size); return (m + 1024 + 4095) / 4096 * 4096; }();
struct Rec { int at; unsigned long gran; bool write; };
struct ThreadOut {                       // results, in shared memory
  uint64_t opHash[MAXOPS]; uint8_t opOut[MAXOPS]; long yields[MAXTH]; int nrec; Rec rec[MAXREC];
  int finished, deadlock; long switches, forced; uint64_t inter; int lastOp[MAXTH]; long sharedAccess; int sharedChanged; char why[200];
  uint64_t cnt[N_COUNT], samples; int stalled[MAXTH], waits, waiter;
};
struct Th { pthread_t t; std::atomic<int> go{0}; long yields = 0, nextAt = -1; int nextTo = 0; size_t si = 0; int state = 0; const void* waitOn = nullptr; };
static Th g_th[MAXTH]; static int g_n = 0, g_curTh = -1; static thread_local int tl_id = -1; static thread_local bool tl_busy = false;
static std::vector<Preempt> g_plan[MAXTH]; static ThreadOut* g_out = nullptr; static bool g_rec = false; static long g_since = 0;
static unsigned char* g_sharedLo = nullptr; static unsigned char* g_sharedHi = nullptr;
extern "C" { extern char __data_start[]; extern char _end[]; }
// C17: one thread only; the other "threads" are interrupt handlers, run to completion on its stack where the plan says
static bool g_nested = false, g_onStack[MAXTH]; static size_t g_next[MAXTH]; static unsigned long g_tlsSize = 0;
static void interrupt(int to, long k);
// C18: threads that stop at a point and stay there (2), or until all others have finished (1)
enum { ST_READY, ST_BLOCKED, ST_DONE, ST_STALLED }; static int g_stallKind[MAXTH]; static long g_limit[MAXTH]; static bool g_stalls = false;
static void waits(int who) { g_out->waits = 1; g_out->waiter = who; _exit(0); }
static bool anyStalled() { for (int i = 0; i < g_n; i++) if (g_th[i].state == ST_STALLED) return true; return false; }
static void finish();

static void futexWait(std::atomic<int>& a) { while (a.load() == 0) syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a.store(0); }
static void futexWake(std::atomic<int>& a) { a.store(1); syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static int pickReady(int prefer) {
  if (prefer >= 0 && prefer < g_n && g_th[prefer].state == 0) return prefer;
  for (int i = 0; i < g_n; i++) { int k = (prefer + 1 + i) % g_n; if (k < 0) k += g_n; if (g_th[k].state == 0) return k; }
  return -1;
}
static void deadlock() { g_out->deadlock = 1; _exit(0); }
// nobody is ready any more: wake those whose stall ends, else this was all
static int endOfStall(int me) {
  for (int i = 0; i < g_n; i++) if (g_th[i].state == ST_BLOCKED) { if (anyStalled()) waits(i); return -1; }
  for (int i = 0; i < g_n; i++) if (g_th[i].state == ST_STALLED && g_stallKind[i] == 1) { g_th[i].state = ST_READY; return i; }
  if (anyStalled()) { (void)me; finish(); _exit(0); }
  return -1;
}
static void switchTo(int to, bool finished) {
  int me = tl_id; if (to == me) return;
  g_since = 0; g_out->switches++; g_out->inter = mix(g_out->inter, (uint64_t)(me + 1) * 1000003u + (uint64_t)g_th[me].yields * 16 + (uint64_t)to);
  g_curTh = to; futexWake(g_th[to].go);
  if (!finished) futexWait(g_th[me].go);
}
static void advancePlan(Th& t, int me) {
  while (t.si < g_plan[me].size() && g_plan[me][t.si].at <= t.yields) t.si++;
  if (t.si < g_plan[me].size()) { t.nextAt = g_plan[me][t.si].at; t.nextTo = g_plan[me][t.si].to; } else t.nextAt = -1;
}
static inline void slowPoint(Th& t) {
  int me = tl_id;
  if (g_nested) { if (t.yields == t.nextAt) { int to = t.nextTo; advancePlan(t, me); interrupt(to, t.yields % 4 ? t.yields % 4 : 1000); } return; }
  if (t.yields == t.nextAt && t.nextTo <= -2) {
    g_stallKind[me] = t.nextTo == -2 ? 2 : 1; t.state = ST_STALLED; g_out->cnt[N_STALL]++; if (g_stallKind[me] == 2) g_out->stalled[me] = 1;
    advancePlan(t, me); int p = pickReady((me + 1) % g_n); if (p < 0) p = endOfStall(me); if (p >= 0 && p != me) switchTo(p, false); return;
  }
  if (g_stalls && t.yields > g_limit[me] && anyStalled()) waits(me);
  if (t.yields == t.nextAt) { int to = t.nextTo; advancePlan(t, me); int p = pickReady(to); if (p >= 0 && p != me) { g_out->cnt[N_PREEMPT]++; switchTo(p, false); } }
  else if (g_since > FAIR) { g_since = 0; int p = pickReady((me + 1) % g_n); if (p >= 0 && p != me) { g_out->forced++; switchTo(p, false); } }
}
static inline void point(const void* a, unsigned long n, bool w) {
  g_work++;
  if (tl_id < 0 || tl_busy) return;
  Th& t = g_th[tl_id]; t.yields++; g_since++;
  if (g_rec && a) {
    const char* c = (const char*)a; unsigned long below = g_nested ? (unsigned long)((const char*)__builtin_thread_pointer() - c) : 0;
    if (below > 0 && below <= g_tlsSize) { if (g_out->nrec < MAXREC) g_out->rec[g_out->nrec++] = Rec{(int)t.yields, ~(below >> 3), w}; } else
    if ((c >= __data_start && c < _end) || ((unsigned char*)a >= g_sharedLo && (unsigned char*)a < g_sharedHi))
      for (unsigned long g = (unsigned long)a >> 3; g <= ((unsigned long)a + (n ? n - 1 : 0)) >> 3 && g_out->nrec < MAXREC; g++) g_out->rec[g_out->nrec++] = Rec{(int)t.yields, g, w};
  }
  if (t.yields == t.nextAt || g_since > FAIR) slowPoint(t);
}
static void giveWay() { if (tl_id < 0 || g_nested) return; point(nullptr, 0, false); int p = pickReady((tl_id + 1) % g_n); if (p >= 0 && p != tl_id) switchTo(p, false); }
static void blockOn(const void* x) {
  if (g_nested) deadlock();
  Th& t = g_th[tl_id]; t.state = 1; t.waitOn = x; int p = pickReady((tl_id + 1) % g_n);
  if (p < 0 && anyStalled()) waits(tl_id);
  if (p < 0) deadlock();
  switchTo(p, false);
}
static void unblock(const void* x) { for (int i = 0; i < g_n; i++) if (g_th[i].state == 1 && g_th[i].waitOn == x) g_th[i].state = 0; }

template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
// ---- what the compiler calls ------------------------------------------------------------------------------------------
#define RW(N) \
  void __tsan_read##N(void* a) { point(a, N, false); } void __tsan_write##N(void* a) { point(a, N, true); } \
  void __tsan_unaligned_read##N(void* a) { point(a, N, false); } void __tsan_unaligned_write##N(void* a) { point(a, N, true); } \
  void __tsan_volatile_read##N(void* a) { point(a, N, false); } void __tsan_volatile_write##N(void* a) { point(a, N, true); }
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { point((const void*)a, sizeof(T), false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { point((void*)a, sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { point((void*)a, sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { point((void*)a, sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { point((void*)a, sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { point((void*)a, sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { point((void*)a, sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { point((void*)a, sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { point((void*)a, sizeof(T), true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point((void*)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { point((void*)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point((void*)a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
typedef unsigned char U8; typedef unsigned short U16; typedef unsigned int U32; typedef unsigned long U64;
extern "C" {
void __sanitizer_cov_trace_pc() { g_work++; }
void __tsan_init() {}
void __tsan_func_entry(void*) { point(nullptr, 0, false); }
void __tsan_func_exit() { point(nullptr, 0, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void* v) { point(a, 8, *a != v); }
void __tsan_vptr_read(void** a) { point(a, 8, false); }
void __tsan_read_range(void* a, unsigned long n) { point(a, n, false); }
void __tsan_write_range(void* a, unsigned long n) { point(a, n, true); }
AT(8, U8) AT(16, U16) AT(32, U32) AT(64, U64)
void __tsan_atomic_thread_fence(int) { point(nullptr, 0, false); }
void __tsan_atomic_signal_fence(int) {}
// block copies of the library are split, so that a thread can be stopped in the middle of one
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  g_work += n / 8;
  if (tl_id < 0 || tl_busy || n < 16) return __real_memcpy(d, s, n);
  size_t h = n / 2 & ~(size_t)7; point(s, n, false); point(d, n, true); __real_memcpy(d, s, h); point(nullptr, 0, false); __real_memcpy((char*)d + h, (const char*)s + h, n - h); return d;
}
void* __wrap_memmove(void* d, const void* s, size_t n) { g_work += n / 8; point(s, n, false); point(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) {
  g_work += n / 8;
  if (tl_id < 0 || tl_busy || n < 16) return __real_memset(d, c, n);
  size_t h = n / 2; point(d, n, true); __real_memset(d, c, h); point(nullptr, 0, false); __real_memset((char*)d + h, c, n - h); return d;
}
// ---- synchronisation -----------------------------------------------------------------------------------------------------
struct Lk { const void* a; int owner; int depth; int readers; };
static Lk g_lk[256]; static int g_nlk = 0;
static Lk& lk(const void* a) { for (int i = 0; i < g_nlk; i++) if (g_lk[i].a == a) return g_lk[i]; if (g_nlk == 256) abort(); g_lk[g_nlk] = Lk{a, -1, 0, 0}; return g_lk[g_nlk++]; }
static bool inSim() { return tl_id >= 0; }
typedef int (*PF)(void*);
static int lockSim(const void* m) { point(m, 1, true); for (;;) { Lk& l = lk(m); if (l.owner < 0 && !l.readers) { l.owner = tl_id; l.depth = 1; return 0; } if (l.owner == tl_id) { l.depth++; return 0; } blockOn(m); } }
static int unlockSim(const void* m) { Lk& l = lk(m); if (l.owner == tl_id) { if (--l.depth == 0) l.owner = -1; } else if (l.readers) l.readers--; unblock(m); point(nullptr, 0, false); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (inSim()) return lockSim(m); static PF f = real<PF>("pthread_mutex_lock"); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (inSim()) { point(m, 1, true); Lk& l = lk(m); if (l.owner >= 0 && l.owner != tl_id) return 16; l.owner = tl_id; l.depth++; return 0; } static PF f = real<PF>("pthread_mutex_trylock"); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (inSim()) return unlockSim(m); static PF f = real<PF>("pthread_mutex_unlock"); return f(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (inSim()) return lockSim(m); static PF f = real<PF>("pthread_rwlock_wrlock"); return f(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (inSim()) { point(m, 1, true); for (;;) { Lk& l = lk(m); if (l.owner < 0) { l.readers++; return 0; } blockOn(m); } } static PF f = real<PF>("pthread_rwlock_rdlock"); return f(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (inSim()) return unlockSim(m); static PF f = real<PF>("pthread_rwlock_unlock"); return f(m); }
int pthread_spin_lock(pthread_spinlock_t* m) { if (inSim()) return lockSim((const void*)m); static PF f = real<PF>("pthread_spin_lock"); return f((void*)m); }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (inSim()) return unlockSim((const void*)m); static PF f = real<PF>("pthread_spin_unlock"); return f((void*)m); }
int pthread_once(pthread_once_t* o, void (*init)()) {
  if (!inSim()) { static int (*f)(pthread_once_t*, void (*)()) = real<int (*)(pthread_once_t*, void (*)())>("pthread_once"); return f(o, init); }
  point(o, 4, *(volatile int*)o != 2);
  for (;;) {
    if (*(volatile int*)o == 2) return 0;
    Lk& l = lk(o); if (l.owner < 0) break; blockOn(o);
  }
  lk(o).owner = tl_id;
  struct R { pthread_once_t* o; ~R() { lk(o).owner = -1; unblock(o); } } r{o};
  init(); *(volatile int*)o = 2; return 0;
}
int __cxa_guard_acquire(long long* g) {
  if (*(volatile char*)g) return 0;
  if (!inSim()) return 1;
  point(g, 1, true);
  for (;;) { if (*(volatile char*)g) return 0; Lk& l = lk(g); if (l.owner < 0) { l.owner = tl_id; return 1; } blockOn(g); }
}
void __cxa_guard_release(long long* g) { *(volatile char*)g = 1; if (inSim()) { lk(g).owner = -1; unblock(g); point(nullptr, 0, false); } }
void __cxa_guard_abort(long long* g) { if (inSim()) { lk(g).owner = -1; unblock(g); point(nullptr, 0, false); } }
int sched_yield() { if (inSim()) giveWay(); return 0; }
int usleep(useconds_t u) { if (inSim()) { giveWay(); return 0; } static int (*f)(useconds_t) = real<int (*)(useconds_t)>("usleep"); return f(u); }
int nanosleep(const timespec* a, timespec* b) { if (inSim()) { giveWay(); return 0; } static int (*f)(const timespec*, timespec*) = real<int (*)(const timespec*, timespec*)>("nanosleep"); return f(a, b); }
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) { if (inSim()) { giveWay(); return 0; } static int (*f)(clockid_t, int, const timespec*, timespec*) = real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep"); return f(c, fl, a, b); }
}

// ---- what a simulated thread does -----------------------------------------------------------------------------------------
namespace {
struct Cell { Obj* o = nullptr; int cls = -1; unsigned char* mem = nullptr; int which = 0; };
unsigned char* g_mem = nullptr;              // [MAXTH + 1][MAXSLOT][2] arenas; the last row is shared
Cell g_cells[MAXTH + 1][MAXSLOT]; unsigned char g_ext[MAXTH][MAXSLOT][EXTSIZE + 64];
const Scenario* g_sc = nullptr; std::vector<int> g_mine[MAXTH + 1];
unsigned char* arena(int row, int slot, int w) { return g_mem + (size_t)TARENA * (size_t)((row * MAXSLOT + slot) * 2 + w) + 64; }
thread_local uint64_t tl_what = 0;
template <class F> int call(F f) { int out = 0; try { f(); } catch (const std::invalid_argument& e) { out = 1; for (const char* t = e.what(); t && *t; t++) tl_what = mix(tl_what, (unsigned char)*t); } catch (const std::bad_alloc&) { out = 2; } catch (...) { out = 3; } return out; }
const bool SHARED_PROP(const Scenario& s) { return s.prop == "C08" || ((s.prop == "C17" || s.prop == "C18") && s.seed % 3 == 0); }
// slots 4 and 5 are shared between the threads in C08
Cell& cell(int row, int slot) { if (SHARED_PROP(*g_sc) && slot >= 4) return g_cells[MAXTH][slot]; return g_cells[row < 0 ? MAXTH : row][slot]; }
bool isShared(int slot) { return SHARED_PROP(*g_sc) && slot >= 4; }
struct Quiet { bool old; Quiet() : old(tl_busy) { tl_busy = true; } ~Quiet() { tl_busy = old; } };     // harness code: no yield points

void doOp(int row, int idx) {
  const Op& o = g_sc->ops[(size_t)idx]; uint64_t h = 7; tl_what = 0; int out = 0; int r = row < 0 ? MAXTH : row;
  if (row >= 0) g_out->lastOp[row] = idx;
  bool sh = isShared(o.a) && row >= 0;       // read-only use only
  auto snapHash = [&](Obj* q) { if (g_sc->quiet) return (uint64_t)1; Snap* s = new Snap; snapshot(q, *s); uint64_t x = hashSnap(*s); delete s; return x; };
  switch (o.k) {
    case O_NEW: { if (sh) break; Cell& c = cell(row, o.a); if (c.o) c.o->~Obj(); c.cls = o.cls; c.which = 0; c.mem = arena(r, o.a, 0); c.o = classes()[(size_t)o.cls].make(c.mem); h = snapHash(c.o); break; }
    case O_SETUP: { if (sh) break; Cell& c = cell(row, o.a); if (!c.o) break; if (!fitsC(c.cls, o.p)) break;
      out = call([&] { c.o->setup(o.p); }); g_out->cnt[out ? N_REJECT : N_ACCEPT]++; h = snapHash(c.o); break; }
    case O_FEED: {
      if (row < 0 && SHARED_PROP(*g_sc)) { for (int i = 4; i < MAXSLOT; i++) if ((o.mask >> i & 1) && cell(-1, i).o) { Stream st(o); for (int k = 0; k < o.n; k++) cell(-1, i).o->fD(st.next()); } break; }
      for (int i = 0; i < 4; i++) if ((o.mask >> i & 1) && cell(row, i).o) { Obj* q = cell(row, i).o; Stream st(o);
        for (int k = 0; k < o.n; k++) { double x = st.next(), y = 0; out |= call([&] { y = q->fD(x); }); h = mix(h, bits(y)); } g_out->samples += (uint64_t)o.n; } g_out->cnt[N_FEED]++; break; }
    case O_RESET: { if (sh) break; Cell& c = cell(row, o.a); if (c.o) out = call([&] { c.o->reset(); }); g_out->cnt[N_RESET]++; break; }
    case O_COPY: { if (isShared(o.a) || o.a == o.b) break; Cell& s = cell(row, o.b); if (!s.o) break; Cell& c = cell(row, o.a); if (c.o) { c.o->~Obj(); c.o = nullptr; }
      c.cls = s.cls; c.which = 0; c.mem = arena(r, o.a, 0); out = call([&] { c.o = s.o->copyTo(c.mem); }); h = c.o ? snapHash(c.o) : 1; g_out->cnt[N_COPY]++; break; }
    case O_ASSIGN: { if (isShared(o.a)) break; Cell &c = cell(row, o.a), &s = cell(row, o.b); if (!c.o || !s.o || c.cls != s.cls) break; out = call([&] { c.o->assign(*s.o, (o.seed / 8) & 1); }); h = snapHash(c.o); g_out->cnt[N_ASSIGN]++; break; }
    case O_DESTROY: { if (sh) break; Cell& c = cell(row, o.a); if (c.o) { c.o->~Obj(); c = Cell(); g_out->cnt[N_DESTROY]++; } break; }
    case O_RELOC: { if (sh) break; Cell& c = cell(row, o.a); if (!c.o) break; int w = 1 - c.which; unsigned char* m = arena(r, o.a, w); Obj* old = c.o; out = call([&] { c.o = (o.seed / 8) & 1 ? old->moveTo(m) : old->copyTo(m); old->~Obj(); }); c.which = w; c.mem = m; h = snapHash(c.o); g_out->cnt[N_RELOC]++; break; }
    case O_QUERY: { Cell& c = cell(row, o.a); if (!c.o) break; int kind = g_sc->quiet ? (int)(o.seed % 3) : 0;
      if (kind == 0) { cplx z; out = call([&] { z = c.o->response(o.amp); }); h = mix(bits(z.real()), bits(z.imag())); h = mix(h, (uint64_t)out); }
      else if (kind == 1) { std::vector<PZ> v; size_t n = 0; out = call([&] { n = c.o->poleZeros(v); if (o.seed & 64) { Coef q; bool clean = true; for (int i = 0; i < c.o->numStages(); i++) { q = c.o->indexed(i); if (!(std::fabs(q.b0) > 1e-100)) clean = false; } if (clean) n += 100 * c.o->cascadePoleZeros(v); } }); h = mix(h, (uint64_t)n); for (auto& z : v) for (cplx q : {z.p1, z.p2, z.z1, z.z2}) h = mix(mix(h, bits(q.real())), bits(q.imag())); }
      else { int n = c.o->numStages(); h = mix(h, (uint64_t)n); for (int i = 0; i < n; i++) { Coef q; out |= call([&] { q = c.o->indexed(i); }); for (double x : {q.b0, q.b1, q.b2, q.a1, q.a2}) h = mix(h, bits(x)); } }
      h = mix(h, snapHash(c.o)); g_out->cnt[N_QUERY]++; break; }
    case O_SHFEED: { if (row < 0) break; Cell& c = cell(row, o.a); if (!c.o) break; void* e = (void*)(((uintptr_t)g_ext[row][o.a] + 63) & ~(uintptr_t)63);
      Stream st(o); for (int k = 0; k < o.n; k++) { double x = st.next(); h = mix(h, bits(c.o->fShared(x, e))); } g_out->samples += (uint64_t)o.n; g_out->cnt[N_FEED]++; break; }
    default: break;
  }
  if (row >= 0) { g_out->opHash[idx] = mix(h, tl_what); g_out->opOut[idx] = (uint8_t)out; }
}
void* body(void* v) {
  int me = (int)(intptr_t)v; tl_id = me; futexWait(g_th[me].go);
  if (g_nested) {
    for (int i = 0; i < g_n; i++) { int t = (me + i) % g_n; if (g_th[t].state) continue; tl_id = t; g_onStack[t] = true; while (g_next[t] < g_mine[t].size()) doOp(t, g_mine[t][g_next[t]++]); g_onStack[t] = false; g_out->yields[t] = g_th[t].yields; }
    tl_id = -1; return nullptr;
  }
  for (int i : g_mine[me]) doOp(me, i);
  g_th[me].state = 2; g_out->yields[me] = g_th[me].yields;
  { Quiet q; int p = pickReady((me + 1) % g_n); if (p < 0) p = endOfStall(me); if (p >= 0) switchTo(p, true); else { bool all = true; for (int i = 0; i < g_n; i++) if (g_th[i].state == 1) all = false; if (!all) deadlock(); } }
  tl_id = -1; return nullptr;
}
}
static void interrupt(int to, long k) {
  if (to < 0 || to >= g_n || g_onStack[to] || g_th[to].state || g_next[to] >= g_mine[to].size()) return;
  for (int i = 0; i < g_nlk; i++) if (g_lk[i].owner >= 0 || g_lk[i].readers) return;      // whoever locks has the interrupts masked
  int me = tl_id, err = errno; uint64_t what = tl_what;
  g_out->cnt[N_PREEMPT]++; g_out->switches++; g_out->inter = mix(g_out->inter, (uint64_t)(me + 1) * 1000003u + (uint64_t)g_th[me].yields * 16 + (uint64_t)to);
  tl_id = to; g_onStack[to] = true;
  while (k-- > 0 && g_next[to] < g_mine[to].size()) doOp(to, g_mine[to][g_next[to]++]);
  g_onStack[to] = false; tl_id = me; tl_what = what; errno = err;
}
namespace {
Snap g_before[2];
}
static void finish() {
  int me = tl_id; tl_id = -1; const Scenario& sc = *g_sc;
  for (int i = 0; i < 2 && !g_out->sharedChanged; i++) if (SHARED_PROP(sc) && !sc.quiet && g_cells[MAXTH][4 + i].o) { Snap a; snapshot(g_cells[MAXTH][4 + i].o, a); std::string why; if (!sameExact(a, g_before[i], why)) { g_out->sharedChanged = 1; snprintf(g_out->why, sizeof g_out->why, "%s", why.c_str()); } }
  for (int i = 0; i < g_n; i++) g_out->cnt[N_YIELDS] += (uint64_t)g_th[i].yields;
  g_out->finished = 1; tl_id = me;
}
namespace {
// child process: the threads in `who` run (one: solo), following `plan`
void simulate(const Scenario& sc, const std::vector<Preempt>& plan, int solo) {
  g_sc = &sc; g_n = sc.threads; g_rec = solo >= 0; g_alloc.inSut = false; g_nested = sc.prop == "C17"; g_stalls = sc.prop == "C18" && solo < 0;
  for (int i = 0; i < MAXTH; i++) { g_onStack[i] = false; g_next[i] = 0; }
  if (g_nested && !g_tlsSize) dl_iterate_phdr([](dl_phdr_info* d, size_t, void*) { for (int i = 0; i < d->dlpi_phnum; i++) if (d->dlpi_phdr[i].p_type == PT_TLS) g_tlsSize = (d->dlpi_phdr[i].p_memsz + d->dlpi_phdr[i].p_align - 1) / d->dlpi_phdr[i].p_align * d->dlpi_phdr[i].p_align; return 1; }, nullptr);
  size_t sz = (size_t)TARENA * (MAXTH + 1) * MAXSLOT * 2 + 4096;
  g_mem = (unsigned char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (SHARED_PROP(sc)) { g_sharedLo = arena(MAXTH, 0, 0); g_sharedHi = g_mem + sz; }
  for (auto& m : g_mine) m.clear();
  for (size_t i = 0; i < sc.ops.size(); i++) { int t = sc.ops[i].th; if (t < 0) g_mine[MAXTH].push_back((int)i); else if (t < g_n) g_mine[t].push_back((int)i); }
  for (int i : g_mine[MAXTH]) doOp(-1, i);
  for (int i = 0; i < 2; i++) if (SHARED_PROP(sc) && !sc.quiet && g_cells[MAXTH][4 + i].o) snapshot(g_cells[MAXTH][4 + i].o, g_before[i]);
  for (int t = 0; t < MAXTH; t++) for (int i = 0; i < MAXSLOT; i++) if (SHARED_PROP(sc) && i >= 4 && g_cells[MAXTH][i].o) g_cells[MAXTH][i].o->initShared((void*)(((uintptr_t)g_ext[t][i] + 63) & ~(uintptr_t)63));
  int first = 0;
  for (auto& p : g_plan) p.clear();
  for (auto& p : plan) { if (p.th < 0) first = p.to; else if (p.th < g_n) g_plan[p.th].push_back(p); }
  for (int i = 0; i < g_n; i++) { Th& t = g_th[i]; t.state = solo >= 0 && solo != i ? 2 : 0; g_stallKind[i] = 0; t.yields = 0; t.si = 0; t.nextAt = -1; advancePlan(t, i); }
  if (solo >= 0) first = solo;
  g_nlk = 0;
  if (g_nested) { if (first < 0 || first >= g_n || g_th[first].state) first = pickReady(0); if (pthread_create(&g_th[first].t, nullptr, body, (void*)(intptr_t)first)) _exit(9); }
  else for (int i = 0; i < g_n; i++) if (g_th[i].state == 0) if (pthread_create(&g_th[i].t, nullptr, body, (void*)(intptr_t)i)) _exit(9);
  if (first < 0 || first >= g_n || g_th[first].state) first = pickReady(0);
  std::vector<int> started; for (int i = 0; i < g_n; i++) if (g_nested ? i == first : g_th[i].state == 0) started.push_back(i);
  g_curTh = first; futexWake(g_th[first].go);
  for (int i : started) pthread_join(g_th[i].t, nullptr);
  finish();
}
Verdict bad(const char* tag, int op, const std::string& msg, uint64_t h) { Verdict v; v.bad = true; v.tag = tag; v.msg = msg; v.op = op; v.hash = h; return v; }
}
void runThreads(Scenario& sc, Outcome& out, std::vector<uint64_t>& inter) {
  static ThreadOut* T = (ThreadOut*)mmap(nullptr, sizeof(ThreadOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_out = T; uint64_t H = 1; std::vector<uint64_t> ref(sc.ops.size(), 0); std::vector<uint8_t> refOut(sc.ops.size(), 0); std::vector<long> len((size_t)sc.threads, 0);
  std::vector<std::vector<Rec>> recs((size_t)sc.threads);
  auto clear = [&] { size_t n = (size_t)T->nrec; (void)n; T->nrec = 0; memset((void*)T->opHash, 0, sizeof T->opHash); memset((void*)T->opOut, 0, sizeof T->opOut); memset(T->yields, 0, sizeof T->yields);
    T->finished = T->deadlock = 0; T->switches = T->forced = 0; T->inter = 0; memset(T->lastOp, 0, sizeof T->lastOp); T->sharedAccess = 0; T->sharedChanged = T->waits = 0; memset(T->stalled, 0, sizeof T->stalled); memset(T->cnt, 0, sizeof T->cnt); T->samples = 0; };
  auto opT = [&](int t) { return sc.ops.empty() ? std::string("nothing") : opText(sc.ops[(size_t)T->lastOp[t < 0 ? 0 : t]]); };
  for (int t = 0; t < sc.threads; t++) {
    clear(); ChildEnd e = forkRun([&] { simulate(sc, {}, t); });
    if (e.st != RS_DONE || !T->finished) { out.v = bad(T->deadlock ? "deadlock" : e.st == RS_HANG ? "hang" : "crash", T->lastOp[t], "a thread running alone " + (T->deadlock ? std::string("blocks for ever") : describe(e)) + " during: " + opT(t), mix(3, (uint64_t)t)); return; }
    for (size_t i = 0; i < sc.ops.size(); i++) if (sc.ops[i].th == t) { ref[i] = T->opHash[i]; refOut[i] = T->opOut[i]; H = mix(H, ref[i]); }
    len[(size_t)t] = T->yields[t]; g_limit[t] = 4 * T->yields[t] + 200000; recs[(size_t)t].assign(T->rec, T->rec + T->nrec);
    if (T->sharedChanged) { out.v = bad("shared-filter-changed", T->lastOp[t], std::string("read-only use changed the filter: ") + T->why, mix(5, (uint64_t)t)); return; }
  }
  // accesses of one thread to memory that another thread writes: the places where an interleaving can matter
  std::vector<std::vector<int>> hot((size_t)sc.threads); size_t nhot = 0;
  { std::vector<std::set<unsigned long>> wr((size_t)sc.threads), any((size_t)sc.threads);
    for (int t = 0; t < sc.threads; t++) for (auto& r : recs[(size_t)t]) { any[(size_t)t].insert(r.gran); if (r.write) wr[(size_t)t].insert(r.gran); }
    for (int t = 0; t < sc.threads; t++) { int last = -1; for (auto& r : recs[(size_t)t]) { bool c = false; for (int u = 0; u < sc.threads && !c; u++) if (u != t) c = wr[(size_t)u].count(r.gran) || (r.write && any[(size_t)u].count(r.gran));
      if (c && r.at != last) { hot[(size_t)t].push_back(r.at); last = r.at; nhot++; } } } }
  int runs = sc.explore > 0 ? sc.explore : 1; if (nhot && sc.explore > 0) runs *= 4;
  Rng r(mix(sc.seed, 0x7EAD5));
  out.cnt[N_THREADS] += (uint64_t)sc.threads;
  for (int k = 0; k < runs; k++) {
    std::vector<Preempt> plan = sc.sched;
    if (sc.explore > 0) {
      plan.clear(); plan.push_back(Preempt{-1, 0, (int)r.below((uint64_t)sc.threads)});
      auto rnd = [&](int t) { return (int)((unsigned)(t + 1 + (int)r.below((uint64_t)(sc.threads > 1 ? sc.threads - 1 : 1))) % (unsigned)sc.threads); };
      int mode = (int)r.below(3); if (nhot && r.chance(0.75)) mode = 3;
      if (mode == 0) { int d = r.range(1, 6); for (int i = 0; i < d; i++) { int t = (int)r.below((uint64_t)sc.threads); plan.push_back(Preempt{t, (long)r.below((uint64_t)std::max(1L, len[(size_t)t])) + 1, rnd(t)}); } }
      else if (mode == 1) { int q = (int)r.logu(1, 400); for (int t = 0; t < sc.threads; t++) { long y = (long)r.below((uint64_t)(q + 1)) + 1; int n = 0; for (; y < len[(size_t)t] && n < 300; y += 1 + (long)r.below((uint64_t)(2 * q)), n++) plan.push_back(Preempt{t, y, rnd(t)}); } }
      else if (mode == 2) { // a burst of preemptions inside one stretch
        int t = (int)r.below((uint64_t)sc.threads); long s = (long)r.below((uint64_t)std::max(1L, len[(size_t)t])); for (int i = 0; i < 40; i++) { s += 1 + (long)r.below(6); plan.push_back(Preempt{t, s, rnd(t)}); }
        for (int u = 0; u < sc.threads; u++) if (u != t) for (int i = 0; i < 20; i++) plan.push_back(Preempt{u, (long)r.below((uint64_t)std::max(1L, len[(size_t)u])) + 1, t}); }
      else { int d = r.chance(0.5) ? r.range(1, 2) : r.range(2, 12); for (int i = 0; i < d; i++) { int t = (int)r.below((uint64_t)sc.threads); if (hot[(size_t)t].empty()) continue; plan.push_back(Preempt{t, hot[(size_t)t][r.below(hot[(size_t)t].size())] + (long)r.below(3), rnd(t)}); } }
      std::stable_sort(plan.begin() + 1, plan.end(), [](const Preempt& a, const Preempt& b) { return a.at < b.at; });
      if (sc.prop == "C18") {      // one thread, or all but one, stops somewhere
        int n = r.chance(0.7) ? 1 : r.range(1, sc.threads - 1), u = (int)r.below((uint64_t)sc.threads); if (r.chance(0.7)) plan.resize(1);
        for (int i = 0; i < n; i++) { int t = (u + i) % sc.threads; long at = (long)r.below((uint64_t)std::max(1L, len[(size_t)t])) + 1; if (!hot[(size_t)t].empty() && r.chance(0.8)) at = hot[(size_t)t][r.below(hot[(size_t)t].size())] + (long)r.below(5); plan.push_back(Preempt{t, at, r.chance(0.6) ? -2 : -3}); if (r.chance(0.7)) plan[0].to = t; }
        std::stable_sort(plan.begin() + 1, plan.end(), [](const Preempt& a, const Preempt& b) { return a.at < b.at; });
      }
      if (plan.size() > 900) plan.resize(900);
    }
    clear(); ChildEnd e = forkRun([&] { simulate(sc, plan, -1); });
    H = mix(H, T->inter); for (int i = 0; i < N_COUNT; i++) out.cnt[i] += T->cnt[i];
    out.samples += T->samples; inter.push_back(T->inter);
    Verdict v;
    if (T->waits) v = bad("waits-for-stalled-thread", T->lastOp[T->waiter], "while another thread is stopped in the middle of an operation, this never completes: " + opT(T->waiter), mix(H, 4));
    else if (e.st != RS_DONE || !T->finished) v = bad(T->deadlock ? "deadlock" : e.st == RS_HANG ? "hang" : "crash", 0, "the threads, each fine alone, together " + (T->deadlock ? std::string("block for ever") : describe(e)), mix(H, 3));
    else {
      for (size_t i = 0; i < sc.ops.size() && !v.bad; i++) if (sc.ops[i].th >= 0 && sc.ops[i].th < sc.threads) {
        if (T->stalled[sc.ops[i].th] && T->opHash[i] == 0) continue;      // never completed
        H = mix(H, T->opHash[i]);
        if (T->opHash[i] != ref[i] || T->opOut[i] != refOut[i]) v = bad("interference", (int)i, std::string("thread ") + std::to_string(sc.ops[i].th) + " gets another result than alone (" + (T->opOut[i] != refOut[i] ? (T->opOut[i] ? "rejected" : "accepted") : "values differ") + ") for: " + opText(sc.ops[i]), mix(H, 1));
      }
      if (!v.bad && T->sharedChanged) v = bad("shared-filter-changed", 0, std::string("read-only use by several threads changed the filter: ") + T->why, mix(H, 2));
    }
    if (v.bad) { v.hash = mix(mix(mix(17, T->inter), (uint64_t)v.op), v.tag.size()); sc.sched = plan; sc.explore = 0; out.v = v; return; }
  }
  out.v.hash = H; out.sh.hist = H;
  out.cnt[N_TONE] = 0;
  if (nhot) out.cnt[N_DETOUR] += nhot;      // reported as conflicting_accesses
}
#endif
