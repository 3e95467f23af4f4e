// Scheduler, allocator seam, output sinks, step accounting. Compiled without instrumentation.
#pragma once
#include <sys/types.h>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include "spec.h"

namespace sim {

enum Fired : int {
  F_SWITCH, F_SWITCH_MID, F_SWITCH_STATIC, F_SWITCH_SHARED, F_ALLOC, F_ALLOC_STICKY, F_ALLOC_LARGE, F_SINK, F_OUT, F_ERRNO, F_LOCALE, F_STACK, F_THREAD_START,
  F_THREAD_EXIT, F_BLOCKED, F_OOM_THROW, F_OOM_FALSE, F_OOM_INVALID, F_OOM_EXACT, F_REJECTED, F_ACCEPTED, F_REUSED, F_HANDOFF,
  F_DIAG_BYTES, F_PREEMPTED_INLIB, F_FAIRNESS, F_LOOK, F_CUT, F_DAMAGE, F_PROBE, F_CLOCK_READ, F_CLOCK_JUMP, F_STALL, F_TIMEOUT, F_SINK0, F_N = F_SINK0 + SINK_NMODES
};
extern const char* const kFiredName[F_N];

enum { MAXEDGE = 1 << 15, MAXPROF = 1 << 14, OUTBUF = 48 << 20, MAXREC = 1 << 16 };

struct Shm {
  int verdict;  // 0 running/none, 1 ok, 2 violation
  char cls[96];
  char msg[8192];
  uint64_t hash, events, points, steps_total, ops_total, switches;
  uint64_t sched_hash;  // hash of the sequence of context switches with their yield points
  uint64_t fired[F_N];
  uint32_t nprof;
  uint32_t prof[MAXPROF];  // yield points at static accesses (profile mode)
  uint32_t first[MAXEDGE], last[MAXEDGE];  // yield points of the first and last visit of each basic block (profile mode)
  uint32_t nrec;
  Switch rec[MAXREC];
  uint32_t nedge;
  uint8_t edge[MAXEDGE];
  uint64_t outlen;
  char out[OUTBUF];
};
extern Shm* shm;

[[noreturn]] void violation(const std::string& cls, const std::string& msg);
void logev(const char* what, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);
extern bool g_trace;
void tracef(const char* fmt, ...);
inline void fired(int k, uint64_t n = 1) { shm->fired[k] += n; }

// One library call: everything between enter and leave is library code of the current actor.
struct CallStats {
  uint64_t steps;
  int allocs, alloc_failed;
  uint64_t diag_bytes;
};
void call_enter(const Op* op, uint64_t budget, bool profile);
CallStats call_leave();
// Inside a call: run simulator code (comparator etc.) without accounting.
struct Pause {
  bool was;
  Pause();
  ~Pause();
};

// Runs one phase of a spec; body(actor, op index, op) executes one operation.
typedef std::function<void(int actor, int opi, const Op& op)> Body;
void sched_begin(const Spec& s);
void sched_phase(const Spec& s, int phase, const Body& body);
void sched_end();  // joins the threads that are still alive
int cur_actor();
void actor_yield();  // lets the other actors run
int stream_locks_held();

struct Live {
  size_t blocks, bytes;
};
Live live_blocks();
std::string live_describe(int round, size_t max);
void set_round(int r);
void set_fill(int f);
void core_init();        // in the zygote
void core_child_init();  // in a fresh child
void core_limit(int cpu_s);
[[noreturn]] void core_exit(int);
void stack_scribble(int pattern);
std::string captured_diag();                 // stderr bytes captured for the last call of this actor (accepted ones)
void out_begin(int mode, int n);             // std::cout routing for the current actor
std::string out_end();
extern "C" uint32_t core_edges();

}  // namespace sim
