#include "alloc.hpp"
#include <cstddef>
#include <cstring>
#include <cerrno>
#include <malloc.h>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
AllocCtl g_alloc; unsigned long long g_clockSkew = 0;
// ---- the clock: whatever the library asks, it is the simulator's answer when there is a skew
static unsigned long long g_clockCalls = 0;
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) {
  if (g_clockSkew && g_alloc.inSut) { unsigned long long x = (g_clockSkew * 2654435761ull + ++g_clockCalls * g_clockSkew * 977ull) % 4000000000000000ull; t->tv_sec = (time_t)(x / 1000000); t->tv_nsec = (long)(x % 1000000) * 1000; return 0; }
  return (int)syscall(SYS_clock_gettime, c, t);
}
time_t time(time_t* o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
int gettimeofday(struct timeval* v, void*) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
clock_t clock() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (clock_t)(t.tv_sec * 1000000 + t.tv_nsec / 1000); }
}
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); }
static const int TAB = 8192; static void* g_tab[TAB]; static int g_used = 0;
static void track(void* p) {
  if (!p) return;
  for (int i = 0; i < TAB; i++) if (!g_tab[i]) { g_tab[i] = p; g_alloc.live++; if (i >= g_used) g_used = i + 1; return; }
  g_alloc.overflow = true;
}
static void untrack(void* p) { if (!g_alloc.live) return; for (int i = 0; i < g_used; i++) if (g_tab[i] == p) { g_tab[i] = nullptr; g_alloc.live--; return; } }
static bool fail() {
  if (!g_alloc.inSut) return false;
  g_alloc.calls++;
  if (g_alloc.failAfter < 0) return false;
  if (g_alloc.failAfter > 0) { g_alloc.failAfter--; return false; }
  if (g_alloc.single) g_alloc.failAfter = -1;
  g_alloc.failed++; g_alloc.fired = true; errno = ENOMEM; return true;
}
static void* done(void* p, size_t n) { if (p && g_alloc.fill >= 0) memset(p, g_alloc.fill, n); if (g_alloc.inSut) track(p); return p; }
extern "C" {
void* malloc(size_t n) { if (fail()) return nullptr; return done(__libc_malloc(n), n); }
void* calloc(size_t a, size_t b) { if (fail()) return nullptr; void* p = __libc_calloc(a, b); if (g_alloc.inSut) track(p); return p; }
void* realloc(void* q, size_t n) { if (fail()) return nullptr; if (q) untrack(q); void* p = __libc_realloc(q, n); if (g_alloc.inSut) track(p); return p; }
void free(void* p) { if (!p) return; untrack(p); if (g_alloc.fill >= 0) memset(p, g_alloc.fill ^ 0x3c, malloc_usable_size(p)); __libc_free(p); }
void* memalign(size_t a, size_t n) { if (fail()) return nullptr; return done(__libc_memalign(a, n), n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { if (fail()) return ENOMEM; *o = done(__libc_memalign(a, n), n); return *o ? 0 : ENOMEM; }
}
