#pragma once
#include <map>
#include <string>
#include <vector>
#include "spec.h"

namespace sim {

struct Baseline {
  bool done = false;      // the baseline run of parse finished
  bool tdone = false;     // tokenize baseline computed and finished
  std::string cls, msg;   // violation of the baseline run itself
  std::string tcls, tmsg;
  bool ret = false, valid = false, haserr = false;
  std::string err;
  int line = 0, col = 0;
  std::vector<std::string> stmts, stmts_np, prints, insp;
  std::vector<std::string> print_cls;
  std::vector<int64_t> lens;
  std::vector<int> nparams;
  std::string params;
  bool tret = false;
  std::vector<int16_t> tokens;
  uint64_t psteps = 0, tsteps = 0;
  int pallocs = 0, tallocs = 0;
  std::vector<uint32_t> pprof, tprof;  // yield points at accesses of static storage
  std::vector<uint32_t> pblk, tblk;    // first and last visit of each basic block
  std::vector<uint64_t> prsteps;       // steps of printing each statement
};
std::string pack(const Baseline&);
void unpack(const std::string&, Baseline&);

typedef std::map<std::string, Baseline> Baselines;
extern Baselines g_base;

// In a fresh child: computes the parse (or tokenize) part and packs it into shm->out.
void child_baseline(const std::string& text, bool tokenize);
// In a fresh child: executes the spec with all its checks; sets the verdict.
void child_run(const Spec& s);

uint64_t budget_parse(const std::string& text, size_t held_statements = 0, size_t held_parameters = 0);
uint64_t budget_generous(size_t len);
std::string flood_text(const std::string& text, int style, int i);
extern const char* const kLocales[];
extern int kNLocales;
void locales_init(const std::string& dir);
bool locale_available(int i);
}  // namespace sim
