// A run is completely described by a Spec: texts, actors with operations, context switches, faults, environment.
// The PRNG only writes Specs; executing one never draws a random number.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim {

struct Rng {  // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
  return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }

enum OpKind : int {
  OP_PARSE,     // slot, text, api
  OP_TOKENIZE,  // text
  OP_RESET,     // slot
  OP_NEW,       // slot: destroy, construct a new one
  OP_MOVEC,     // slot: destroyed and move-constructed from slot2
  OP_MOVEA,     // slot: move-assigned from slot2
  OP_RELEASE,   // slot -> appended to bag
  OP_ADD,       // bag[arg % size] appended to slot
  OP_WRAP,      // slot: destroyed and constructed from statement bag[arg % size]
  OP_DROP,      // delete bag[arg % size]
  OP_DROPALL,   // delete everything in the bag
  OP_GIVE,      // bag[arg % size] moved to bag slot2
  OP_CHECK,     // slot: full comparison with the model (and size of bag)
  OP_CHECKBAG,  // bag
  OP_PRINT,     // print statement arg % size of slot
  OP_PRINTBAG,  // print statement arg % size of bag
  OP_READ,      // read slot through every accessor several times
  OP_FLOOD,     // arg different texts made of text, each into the reset slot; api: 0 number appended, 1 moved by blanks and lines, 2 tokenized
  OP_LOOK,      // another thread of the host: compares the state of the process and the texts of the calls in progress, arg times, with a yield after each
  OP_NOP,
  OP_NKINDS
};
extern const char* const kOpName[OP_NKINDS];

struct AllocFault {
  int nth;   // 1-based index of the allocation within the operation
  int mode;  // 0: that one fails, 1: that one and all later ones of the operation, 2: that one and later ones at least as large
};
enum SinkMode : int { SINK_OK, SINK_EIO, SINK_ENOSPC, SINK_EPIPE, SINK_EBADF, SINK_EAGAIN, SINK_EINTR, SINK_SHORT, SINK_ZERO,
                      SINK_FD_CLOSED, SINK_FD_FULL, SINK_FD_PIPE, SINK_NULLBUF, SINK_NMODES };
extern const char* const kSinkName[SINK_NMODES];
enum OutMode : int { OUT_OK, OUT_EOF, OUT_THROW, OUT_EXC, OUT_BADBIT };  // std::cout: fail after n bytes

struct Op {
  int kind = OP_NOP;
  int slot = 0, slot2 = 0, bag = 0, text = 0, api = 0, arg = 0;
  int err = -1;     // value of errno before the call (-1: untouched)
  int locale = 0;   // locale during the call
  int stack = 0;    // stack garbage before the call: 0 none, else pattern
  int sink = 0;     // stderr fault
  int sinkn = 0;    // SINK_SHORT: bytes accepted
  int clk = 0;      // the clock jumps by so many seconds before the call
  int out = 0;      // std::cout fault
  int outn = 0;     // bytes accepted before it
  int buf = 0;      // the text is in a buffer of the caller that is overwritten after the call: 1 reused by all calls of the actor, 2 a string with spare capacity, 3 an exact one
  int blind = 0;    // the result is not looked at after the operation
  std::vector<AllocFault> af;
};
struct Actor {
  int id = 0;
  int exit = 1;  // the thread exits at the end of this phase
  std::vector<Op> ops;
};
struct Phase {
  std::vector<Actor> actors;
};
struct Switch {  // when operation `op` of `actor` in `phase` reaches its yield point `pt`: actor goes to the back, `to` to the front
  int phase, actor, op;
  uint64_t pt;
  int to;
};
enum Check : int {
  CK_OUTCOME = 1,    // each call's outcome equals the baseline of its text
  CK_MODEL = 2,      // results match the reference model
  CK_PARAMS = 4,     // parameter list = placeholders of owned statements
  CK_LEAK = 8,       // live blocks do not grow over rounds
  CK_REJECT = 16,    // all-or-nothing rejection, message and position
  CK_OOM = 32,       // success under allocation failure must be exact
  CK_PRINT = 64,     // printed text equals baseline
  CK_STEPS = 128,    // step budget
  CK_TOKENS = 256,
  CK_HOST = 1024,    // the state that the host shares with the library
  CK_CRASH = 512,    // memory errors, exits, deadlocks
};

struct Spec {
  std::string prop;
  uint64_t seed = 0;
  int rounds = 1;
  int fill = 0;      // heap fill pattern
  int nslots = 4, nbags = 2;
  int checks = 0;
  int sched = 0;     // 0: explicit switches only, 1: every q points to the next actor, 2: pseudo-random with 1/q (seed sseed),
                     // 3: pseudo-random with 1/q, at static storage, synchronisation and shared heap memory only
  int place = 0;     // results are constructed one after the other at the same address
  int host = 0;      // settings of the host process (bits, see host_habits)
  int locale = 0;    // of the process, over the whole run
  int heap = 0;      // accesses of heap memory that several actors use are yield points
  int q = 0;
  uint64_t sseed = 0;
  int stall = 0;     // seconds that pass whenever another actor takes over
  std::vector<std::string> texts;
  std::vector<Phase> phases;
  std::vector<Switch> switches;
  // property-specific oracle outside of the run (C04, C10, C12): see oracles.cpp
  int oracle = 0;
  std::vector<int64_t> oargs;
};

std::string spec_write(const Spec&);
bool spec_read(const std::string&, Spec&, std::string& extra);
std::string esc(const std::string&);
bool unesc(const std::string&, std::string&);
size_t spec_ops(const Spec&);

bool baseless(const Spec& s);  // nothing in it is compared with its texts alone
}  // namespace sim
