#pragma once
#include "scenario.hpp"
#include <map>

struct Snap {
  int ns = -99, nst = 0, nidx = 0, pzOut = 0, npz = 0;
  Coef st[MAXST], idx[MAXST]; cplx resp[7]; PZ pz[MAXST];
};
// what a brand new filter in a process of its own does with one request
// steps (basic blocks and memory accesses of library code) of its operations
enum { W_SETUP, W_SAMPLE, W_RESET, W_COPY, W_ASSIGN, W_RESPONSE, W_POLES, W_COUNT };
extern uint64_t g_work;      // advances in the instrumented build only
struct Ref { uint64_t work[W_COUNT] = {}; int outcome = 0; bool crashed = false; int sig = 0; Snap s; double G = 0; };

enum Cnt { N_ACCEPT, N_REJECT, N_REJECT_LATE, N_RETUNE_RUNNING, N_ORDERCHG, N_CLOCKJUMP, N_REPEATREQ, N_FEED, N_RESET, N_RESET_USED, N_COPY, N_ASSIGN, N_DESTROY, N_RELOC, N_QUERY, N_QUERYBAD,
  N_G_NAN, N_G_INF, N_G_DENORM, N_G_HUGE, N_G_SPIKE, N_ALLOCARMED, N_ALLOCFIRED, N_MODELCMP, N_MODELSKIP, N_PAIRCMP, N_TONE, N_TYPED, N_CRASHRESTART, N_ENVPAIR,
  N_PREEMPT, N_YIELDS, N_THREADS, N_LOSTSAMPLES, N_DETOUR, N_SETTLECHK, N_ALLOCQ, N_STALL, N_WORKCHK, N_COUNT };
extern const char* CNT_NAMES[];

enum RunStatus { RS_DONE, RS_REJECT, RS_SIGNAL, RS_HANG, RS_EXIT };
struct Shared {
  volatile int op; volatile int finished; volatile int rejectStop;
  int violated; int vop; char tag[48]; char msg[480];
  uint64_t hash; uint64_t opHash[MAXOPS]; uint8_t opOut[MAXOPS]; uint8_t opKind[MAXOPS];
  uint64_t cnt[N_COUNT]; uint64_t samples; uint64_t states[MAXOPS * 2]; int nstates; uint64_t hist;
  long live1, live2, live3;
  uint64_t extra[64];
};
struct RunOpts { int start = 0; int env = 0; bool inject = false; bool stopOnReject = false; bool oracles = true; int repeat = 1; };
struct Verdict { bool bad = false; std::string tag, msg; int op = -1; uint64_t hash = 0; };

struct Outcome { Verdict v; Shared sh; uint64_t cnt[N_COUNT]; uint64_t samples = 0; };
typedef std::vector<Ref*> RefMap;      // one per op index (SETUP/NEW), may be null

int snapshot(Obj* o, Snap& s);         // 0, or the outcome of a failed query
void execute(const Scenario& sc, const RefMap& refs, const RunOpts& o, Shared* sh);   // runs in a child
enum { ENV_THREAD = 8, ENV_PROCESS, ENV_EARLY, ENV_LATE, ENV_COUNT };     // environments of C16 beyond memory contents
bool sameExact(const Snap& a, const Snap& b, std::string& why);
bool sameApprox(const Snap& a, const Snap& b, std::string& why);
std::vector<int> resolveClasses(const Scenario& sc);   // class of slot a before each op (for NEW: the new class), -1 = inapplicable
// worker plumbing shared by main.cpp and threads.cpp
#include <functional>
struct ChildEnd { RunStatus st; int sig; };
ChildEnd forkRun(const std::function<void()>& f);
std::string describe(const ChildEnd& e);
void runThreads(Scenario& sc, Outcome& out, std::vector<uint64_t>& interleavings);
uint64_t hashSnap(const Snap& s);
