// A scenario is one explicit, self-contained execution: every operation, argument, fault and scheduling decision
// is written out, so that running it needs no random numbers. Seeds expand to scenarios (gen.cpp), replay files
// are scenarios, and minimisation edits scenarios.
#pragma once
#include "filters.hpp"
#include "prng.hpp"
#include <string>
#include <vector>

enum OpK { O_NEW, O_SETUP, O_FEED, O_RESET, O_COPY, O_ASSIGN, O_DESTROY, O_RELOC, O_QUERY, O_ALLOC, O_TONE, O_SHFEED, O_COUNT };
enum Gen { G_NOISE, G_SINE, G_STEP, G_IMPULSE, G_SQUARE, G_DCNOISE, G_ZERO,            // ordinary streams
           G_NAN, G_PINF, G_NINF, G_DENORM, G_HUGE, G_SPIKE, G_NANIN, G_COUNT };        // outlier samples
enum { MAXSLOT = 6, MAXOPS = 900, MAXST = 20 };

struct Op {
  OpK k = O_FEED;
  int a = 0, b = 0;          // slots (target, source)
  unsigned mask = 0;         // slots fed
  int cls = -1;              // class of O_NEW
  Params p;                  // request of O_SETUP
  int gen = 0, n = 0, st = 0;// stream kind, length, sample type (st == 5: mixed)
  double amp = 1;            // amplitude; O_QUERY: frequency
  uint64_t seed = 0;         // stream / placement
  int m = 0;                 // O_ALLOC: fail after m further allocations, -1 = off; b = 1: a single failure
  int th = 0;                // thread (threaded scenarios; -1: before the threads start)
};
struct Preempt { int th; long at; int to; };   // when thread th reaches its at-th yield point, run thread `to`
struct Scenario {
  std::string prop;
  uint64_t seed = 0;
  int env = 0;               // memory contents / placement variant
  int quiet = 0;             // 1: filters are never inspected, only the scenario's own operations touch them
  std::vector<Op> ops;
  std::vector<Preempt> sched; int threads = 0;
  int explore = 0;           // > 0: the schedule is still open, draw that many from the seed
};
std::string toText(const Scenario&);
bool fromText(const std::string&, Scenario&, std::string& err);
std::string paramsText(const Params&);
std::string opText(const Op&);

// the sample stream of an O_FEED
struct Stream {
  Rng r; int gen, n, i; double amp, ph, w, lvl; int at;
  Stream(const Op& o) : r(o.seed), gen(o.gen), n(o.n), i(0), amp(o.amp) {
    ph = r.uniform(0, 6.28); w = r.logu(0.01, 3.0); lvl = r.uniform(-1, 1); at = (int)r.below((uint64_t)(n > 0 ? n : 1));
  }
  double next() {
    double x = r.uniform(-1, 1) * amp; int j = i++;
    switch (gen) {
      case G_NOISE: return x;
      case G_SINE: return amp * std::sin(ph + w * j);
      case G_STEP: return j < at ? 0 : amp;
      case G_IMPULSE: return j == at ? amp : 0;
      case G_SQUARE: return ((j * 7 / (1 + (int)(20 * (lvl + 1)))) & 1) ? amp : -amp;
      case G_DCNOISE: return amp * lvl + 0.1 * x;
      case G_ZERO: return 0;
      case G_NAN: return NAN;
      case G_PINF: return INFINITY;
      case G_NINF: return -INFINITY;
      case G_DENORM: return x * 1e-310;
      case G_HUGE: return x * 1e300;
      case G_SPIKE: return j == at ? 1e6 * amp : x;
      default: return j == at ? NAN : x;
    }
  }
};
inline bool outlier(int gen) { return gen >= G_NAN; }
