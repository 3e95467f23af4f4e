#include "spec.h"
#include <cstdio>
#include <cstring>
#include <sstream>

namespace sim {
const char* const kOpName[OP_NKINDS] = {"parse",   "tokenize", "reset", "new",   "movec",    "movea", "release",  "add", "wrap",
                                        "drop",    "dropall", "give", "check", "checkbag", "print", "printbag", "read", "flood", "look", "nop"};
const char* const kSinkName[SINK_NMODES] = {"ok", "eio", "enospc", "epipe", "ebadf", "eagain", "eintr", "short", "zero",
                                            "fd_closed", "fd_full", "fd_pipe", "buffered"};

std::string esc(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '\\' || c == '"') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
bool unesc(const std::string& s, std::string& o) {
  o.clear();
  if (s.size() < 2 || s[0] != '"' || s[s.size() - 1] != '"') return false;
  for (size_t i = 1; i + 1 < s.size(); i++) {
    if (s[i] != '\\') {
      o += s[i];
      continue;
    }
    i++;
    if (s[i] == 'n')
      o += '\n';
    else if (s[i] == 'x') {
      o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else
      o += s[i];
  }
  return true;
}
size_t spec_ops(const Spec& s) {
  size_t n = 0;
  for (auto& p : s.phases)
    for (auto& a : p.actors) n += a.ops.size();
  return n;
}

std::string spec_write(const Spec& s) {
  std::ostringstream o;
  o << "sqlsim 1\nprop " << s.prop << "\nseed " << s.seed << "\nrounds " << s.rounds << "\nfill " << s.fill << "\nslots " << s.nslots
    << "\nbags " << s.nbags << "\nchecks " << s.checks << "\nsched " << s.sched << " " << s.q << " " << s.sseed << "\n";
  if (s.place) o << "place " << s.place << "\n";
  if (s.host) o << "host " << s.host << "\n";
  if (s.locale) o << "hostlocale " << s.locale << "\n";
  if (s.heap) o << "heap " << s.heap << "\n";
  if (s.stall) o << "stall " << s.stall << "\n";
  if (s.oracle) {
    o << "oracle " << s.oracle;
    for (auto v : s.oargs) o << " " << v;
    o << "\n";
  }
  for (size_t i = 0; i < s.texts.size(); i++) o << "text " << i << " " << esc(s.texts[i]) << "\n";
  for (auto& p : s.phases) {
    o << "phase\n";
    for (auto& a : p.actors) {
      o << "actor " << a.id << " exit=" << a.exit << "\n";
      for (auto& op : a.ops) {
        o << "op " << kOpName[op.kind];
        if (op.slot) o << " slot=" << op.slot;
        if (op.slot2) o << " slot2=" << op.slot2;
        if (op.bag) o << " bag=" << op.bag;
        if (op.text) o << " text=" << op.text;
        if (op.api) o << " api=" << op.api;
        if (op.arg) o << " arg=" << op.arg;
        if (op.err >= 0) o << " errno=" << op.err;
        if (op.locale) o << " locale=" << op.locale;
        if (op.stack) o << " stack=" << op.stack;
        if (op.clk) o << " clk=" << op.clk;
        if (op.sink) o << " sink=" << op.sink;
        if (op.sinkn) o << " sinkn=" << op.sinkn;
        if (op.out) o << " out=" << op.out;
        if (op.outn) o << " outn=" << op.outn;
        if (op.buf) o << " buf=" << op.buf;
        if (op.blind) o << " blind=" << op.blind;
        for (auto& f : op.af) o << " allocfail=" << f.nth << "," << f.mode;
        o << "\n";
      }
    }
  }
  for (auto& w : s.switches) o << "switch " << w.phase << " " << w.actor << " " << w.op << " " << w.pt << " " << w.to << "\n";
  o << "end\n";
  return o.str();
}

bool spec_read(const std::string& in, Spec& s, std::string& extra) {
  std::istringstream f(in);
  std::string line, w;
  s = Spec();
  extra.clear();
  if (!std::getline(f, line) || line != "sqlsim 1") return false;
  while (std::getline(f, line)) {
    std::istringstream l(line);
    if (!(l >> w)) continue;
    if (w == "end") return true;
    if (w[0] == '#') {
      extra += line + "\n";
      continue;
    }
    if (w == "prop") l >> s.prop;
    else if (w == "seed") l >> s.seed;
    else if (w == "rounds") l >> s.rounds;
    else if (w == "fill") l >> s.fill;
    else if (w == "slots") l >> s.nslots;
    else if (w == "bags") l >> s.nbags;
    else if (w == "checks") l >> s.checks;
    else if (w == "sched") l >> s.sched >> s.q >> s.sseed;
    else if (w == "place") l >> s.place;
    else if (w == "host") l >> s.host;
    else if (w == "hostlocale") l >> s.locale;
    else if (w == "heap") l >> s.heap;
    else if (w == "stall") l >> s.stall;
    else if (w == "oracle") {
      l >> s.oracle;
      int64_t v;
      while (l >> v) s.oargs.push_back(v);
    } else if (w == "text") {
      size_t n;
      l >> n;
      std::string rest;
      std::getline(l, rest);
      std::string t;
      if (rest.size() < 1 || !unesc(rest.substr(1), t)) return false;
      if (s.texts.size() <= n) s.texts.resize(n + 1);
      s.texts[n] = t;
    } else if (w == "phase") s.phases.emplace_back();
    else if (w == "actor") {
      Actor a;
      std::string e;
      l >> a.id >> e;
      a.exit = atoi(e.c_str() + 5);
      s.phases.back().actors.push_back(a);
    } else if (w == "op") {
      Op op;
      l >> w;
      for (int i = 0; i < OP_NKINDS; i++)
        if (w == kOpName[i]) op.kind = i;
      while (l >> w) {
        auto p = w.find('=');
        std::string k = w.substr(0, p), v = w.substr(p + 1);
        int n = atoi(v.c_str());
        if (k == "slot") op.slot = n;
        else if (k == "slot2") op.slot2 = n;
        else if (k == "bag") op.bag = n;
        else if (k == "text") op.text = n;
        else if (k == "api") op.api = n;
        else if (k == "arg") op.arg = n;
        else if (k == "errno") op.err = n;
        else if (k == "locale") op.locale = n;
        else if (k == "stack") op.stack = n;
        else if (k == "clk") op.clk = n;
        else if (k == "sink") op.sink = n;
        else if (k == "sinkn") op.sinkn = n;
        else if (k == "out") op.out = n;
        else if (k == "outn") op.outn = n;
        else if (k == "buf") op.buf = n;
        else if (k == "blind") op.blind = n;
        else if (k == "allocfail") {
          AllocFault a;
          a.nth = n;
          a.mode = atoi(v.c_str() + v.find(',') + 1);
          op.af.push_back(a);
        }
      }
      s.phases.back().actors.back().ops.push_back(op);
    } else if (w == "switch") {
      Switch x;
      l >> x.phase >> x.actor >> x.op >> x.pt >> x.to;
      s.switches.push_back(x);
    } else
      return false;
  }
  return false;
}
bool baseless(const Spec& s) { return !(s.checks & (CK_OUTCOME | CK_MODEL | CK_PARAMS | CK_REJECT | CK_OOM | CK_PRINT | CK_STEPS | CK_HOST)) && s.oracle != 12; }
}  // namespace sim
