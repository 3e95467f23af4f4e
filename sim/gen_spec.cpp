// Per-property generation of specs: workloads, schedules, faults, environments.
#include "gen_spec.h"
#include <algorithm>
#include <cerrno>
#include "sqlgen.h"

namespace sim {

const char* const kProps[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C20"};
const int kNProps = 15;

bool needs_tok(const Spec& s, int t) {
  for (auto& p : s.phases)
    for (auto& a : p.actors)
      for (auto& o : a.ops)
        if (o.kind == OP_TOKENIZE && o.text == t) return true;
  return false;
}
bool needs_parse(const Spec& s, int t) {
  for (auto v : s.oargs)
    if (v == t && s.oracle == 12) return true;
  for (auto& p : s.phases)
    for (auto& a : p.actors)
      for (auto& o : a.ops)
        if (o.kind == OP_PARSE && o.text == t) return true;
  return false;
}

namespace {
struct G {
  Rng& r;
  const BaseFn& base;
  bool thorough;
  Spec s;
  G(Rng& r, const BaseFn& b, bool th, const std::string& prop, uint64_t seed) : r(r), base(b), thorough(th) {
    s.prop = prop;
    s.seed = seed;
    s.nslots = 1;
    s.nbags = 1;
  }
  int text(const std::string& t) {
    for (size_t i = 0; i < s.texts.size(); i++)
      if (s.texts[i] == t) return (int)i;
    s.texts.push_back(t);
    return (int)s.texts.size() - 1;
  }
  Actor& actor(int phase, int id, int exit = 1) {
    while ((int)s.phases.size() <= phase) s.phases.emplace_back();
    s.phases[phase].actors.emplace_back();
    Actor& a = s.phases[phase].actors.back();
    a.id = id;
    a.exit = exit;
    return a;
  }
  static Op op(int kind, int slot = 0, int slot2 = 0) {
    Op o;
    o.kind = kind;
    o.slot = slot;
    o.slot2 = slot2;
    return o;
  }
  Op parse(int slot, int t) {
    Op o = op(OP_PARSE, slot);
    o.text = t;
    o.api = r.chance(1, 6) ? 1 : 0;
    if (r.chance(1, 10) && s.texts[t].find('\0') == std::string::npos) o.api = 2;
    return o;
  }
  Op tok(int t) {
    Op o = op(OP_TOKENIZE);
    o.text = t;
    return o;
  }
  uint64_t steps(const Op& o) {
    if (o.kind == OP_PARSE) {
      auto* b = base(s.texts[o.text], false);
      return b ? b->psteps : 1000;
    }
    if (o.kind == OP_TOKENIZE) {
      auto* b = base(s.texts[o.text], true);
      return b ? b->tsteps : 1000;
    }
    if (o.kind == OP_PRINT) {
      const Op* p = nullptr;  // what the slot probably holds by then
      for (auto& ph : s.phases)
        for (auto& a : ph.actors)
          for (auto& q : a.ops)
            if (q.kind == OP_PARSE && q.slot == o.slot && !p) p = &q;
      auto* b = p ? base(s.texts[p->text], false) : nullptr;
      if (b && !b->prsteps.empty()) return b->prsteps[(size_t)o.arg % b->prsteps.size()];
      return 600;
    }
    if (o.kind == OP_PRINTBAG) return 600;
    if (o.kind == OP_READ) return 300;
    return 100;
  }
  const std::vector<uint32_t>* prof(const Op& o) {
    if (o.kind == OP_PARSE) {
      auto* b = base(s.texts[o.text], false);
      return b ? &b->pprof : nullptr;
    }
    if (o.kind == OP_TOKENIZE) {
      auto* b = base(s.texts[o.text], true);
      return b ? &b->tprof : nullptr;
    }
    return nullptr;
  }
  const std::vector<uint32_t>* blocks(const Op& o) {
    if (o.kind == OP_PARSE) {
      auto* b = base(s.texts[o.text], false);
      return b ? &b->pblk : nullptr;
    }
    if (o.kind == OP_TOKENIZE) {
      auto* b = base(s.texts[o.text], true);
      return b ? &b->tblk : nullptr;
    }
    return nullptr;
  }
  // a yield point of the operation: an access to static storage, the first or last visit of a basic block, or any
  uint64_t somewhere(const Op& o) {
    uint64_t n = steps(o);
    auto* pr = prof(o);
    auto* bl = blocks(o);
    int c = (int)r.below(5);
    if (c < 2 && pr && !pr->empty()) return (*pr)[r.below(pr->size())];
    if (c < 4 && bl && !bl->empty()) return (*bl)[r.below(bl->size())];
    return 1 + r.below(n + 1);
  }
  // chooses the way actors interleave
  void schedule() {
    uint64_t total = 0;
    size_t maxact = 0;
    for (auto& p : s.phases) {
      maxact = std::max(maxact, p.actors.size());
      for (auto& a : p.actors)
        for (auto& o : a.ops) total += steps(o);
    }
    if (maxact < 2) return;
    static const int stalls[] = {1, 2, 30, 3600};
    if (r.chance(1, 3)) s.stall = stalls[r.below(4)];
    uint64_t minq = total / 3000 + 1;
    static const int qs[] = {1, 2, 3, 5, 9, 17, 40, 101, 300, 997};
    s.heap = r.chance(1, 3);
    if (s.heap && r.chance(1, 2)) {
      s.sched = 3;
      s.q = qs[r.below(7)];
      s.sseed = r.next() >> 1;
      return;
    }
    switch (r.below(5)) {
      case 0:
        s.sched = 1;
        s.q = (int)std::max<uint64_t>(minq, qs[r.below(10)]);
        s.sseed = r.next() >> 1;
        break;
      case 1:
        s.sched = 2;
        s.q = (int)std::max<uint64_t>(minq, qs[r.below(10)]);
        s.sseed = r.next() >> 1;
        break;
      default: {
        int d = 1 + (int)r.below(r.chance(1, 4) ? 12 : 4);
        for (int i = 0; i < d; i++) {
          std::vector<int> ph;
          for (size_t p = 0; p < s.phases.size(); p++)
            if (s.phases[p].actors.size() > 1) ph.push_back((int)p);
          int p = r.pick(ph);
          auto& as = s.phases[p].actors;
          auto& a = as[r.below(as.size())];
          if (a.ops.empty()) continue;
          int oi = (int)r.below(a.ops.size());
          const Op& o = a.ops[oi];
          uint64_t pt = somewhere(o);
          auto& b = as[r.below(as.size())];
          s.switches.push_back(Switch{p, a.id, oi, pt, b.id == a.id ? -1 : b.id});
          if (r.chance(1, 3) && &b != &a && !b.ops.empty()) {  // and back from inside the other one
            int oj = (int)r.below(b.ops.size());
            uint64_t pp = somewhere(b.ops[oj]);
            s.switches.push_back(Switch{p, b.id, oj, pp, a.id});
          }
        }
        std::stable_sort(s.switches.begin(), s.switches.end(), [](const Switch& x, const Switch& y) { return x.pt < y.pt; });
      }
    }
  }
  // some operations are not followed by a look at the result, looking can change what a later operation finds
  void blind(int num, int den) {
    if (!r.chance(num, den)) return;
    int x = (int)r.below(3);
    for (auto& p : s.phases)
      for (auto& a : p.actors)
        for (auto& o : a.ops)
          if (!x || r.chance(1, 2)) o.blind = 1;
  }
  void env(Op& o, int num, int den) {
    static const int errs[] = {0, 1, EINTR, EAGAIN, ENOMEM, EINVAL, ERANGE, ERANGE, EDOM, 9999};
    if (r.chance(num, den)) o.err = errs[r.below(10)];
    if (r.chance(num, den)) o.stack = 1 + (int)r.below(6);
    if (r.chance(num, den * 4)) o.clk = r.chance(1, 3) ? -(int)r.below(100000000) : 1 + (int)r.below(1000) * (int)r.below(1000000);
    if (r.chance(num, den * 2)) o.locale = 1 + (int)r.below(6);
  }
  GenOpt opt(int size, int fam = -1) {
    GenOpt o;
    o.family = fam >= 0 ? fam : (int)r.below(FAM_N);
    o.size = (int)r.below(size + 1);
    return o;
  }
  // the same failure again and again
  void worn(Actor& a, int slot, std::string t) {
    if (t.size() > 60) t = "SELECT 'a' FROM t";
    bool tk = r.chance(1, 4);
    auto* b = base(t, tk);
    int n = b ? (tk ? b->tallocs : b->pallocs) : 0;
    if (!n) return;
    int ti = text(t);
    AllocFault f{1 + (int)r.below(r.chance(1, 2) ? 3 : n), (int)r.below(3)};
    static const int ms[] = {17, 33, 65, 70, 129, 140, 257, 300};
    for (int i = 0, m = ms[r.below(8)]; i < m; i++) {
      Op o = tk ? tok(ti) : parse(slot, ti);
      o.api = 0;
      o.af.push_back(f);
      a.ops.push_back(o);
    }
    a.ops.push_back(op(OP_RESET, slot));
    a.ops.push_back(tk ? tok(ti) : parse(slot, ti));
  }
  // thousands of different texts, and others of their kind afterwards
  void flood(Actor& a, int slot, int num, int den, bool oom) {
    if (!r.chance(num, den)) return;
    static const char* ts[] = {"SELECT a", "SELECT '", "SELECT FROM ", "SELECT \"a", "x", "SELECT * FROM t WHERE a = ", "SELECT ? FROM t", "DROP TABLE a", "SELECT 1.", "INSERT INTO t VALUES ('a', ", "SELECT a FROM FROM t", "EXECUTE p", "#", "SELECT f(", ")"};
    Op o = op(OP_FLOOD, slot);
    std::string t = ts[r.below(15)];
    o.api = (int)r.below(5);
    if (o.api > 2) o.api -= 3;
    o.text = text(t);
    static const int ns[] = {70, 140, 300, 600, 1100, 4100, 12000};
    o.arg = ns[r.below(oom ? 5 : 7)] + (int)r.below(20);
    if (!oom && r.chance(1, 12)) {  // more calls than 16 bits count
      static const char* tiny[] = {"#", "x", ")", "DROP TABLE a", "SELECT a"};
      o.text = text(t = tiny[r.below(5)]);
      o.arg = 65500 + (int)r.below(600);
    }
    if (oom && r.chance(2, 3)) o.af.push_back(AllocFault{1 + (int)r.below(20), (int)r.below(3)});
    a.ops.push_back(o);
    for (int i = 0; i < 3; i++) {
      int k = i == 0 ? o.arg : (int)r.below((uint64_t)o.arg);
      int ti = text(flood_text(t, o.api, k));
      a.ops.push_back(op(OP_RESET, slot));
      a.ops.push_back(o.api == 2 ? tok(ti) : parse(slot, ti));
    }
    a.ops.push_back(op(OP_RESET, slot));
  }
  // more than any buffer a call could keep
  std::string large() {
    static const int kinds[] = {0, 1, 3, 4, 8, 9, 16, 32, 33};
    std::string t = gen_sized(r, r.chance(1, 2) ? 140000 : 40000, kinds[r.below(9)]);
    if (r.chance(1, 12)) t = gen_huge(r, false);
    if (r.chance(1, 3)) t += r.chance(1, 2) ? " )" : " 'open";
    return t;
  }
  std::string any(int size) { return gen_any(r, size); }
  std::string ok_text(int size, int fam = -1) {
    for (int i = 0; i < 8; i++) {
      std::string t = gen_text(r, opt(size, fam));
      auto* b = base(t, false);
      if (b && b->valid) return t;
    }
    return "SELECT a, 'it''s', ? FROM t";
  }
  std::string bad_text() {
    for (int i = 0; i < 8; i++) {
      std::string t = r.chance(2, 3) ? gen_reject(r) : mutate(r, gen_text(r, opt(2)));
      auto* b = base(t, false);
      if (b && !b->valid) return t;
    }
    return "SELECT FROM";
  }
};

typedef std::vector<Spec> Specs;

// short texts that are rejected with something left open
std::string many_reject(Rng& r) {
  static const char* open[] = {"((((((((", "SELECT ((((((a FROM t", "SELECT f(g(h(1, ?", "SELECT [[[[", "SELECT ARRAY[ARRAY[1,", "SELECT CASE WHEN CASE WHEN a", "SELECT 'a''b", "SELECT \"a", "x", "SELECT ? ? ?", "SELECT a, ?, ?; SELECT )", "SELECT 'x' 'y'",
                               "))))))))", "SELECT a))))))", "]]]]", "END END END", "SELECT 99999999999999999999", "SELECT -- c", "CREATE TABLE s.t (a INT NULL NOT NULL", "WITH a AS (SELECT 1), b AS (", "COPY s.t FROM 'f' WITH (ENCODING 'a', ENCODING 'b'", "SELECT #", "SELECT \x01",
                               "SELECT * FROM a JOIN b JOIN c ON", "SELECT a FROM t WHERE ? = ? AND ? = ?)", "SELECT DATE 'x'", "SELECT INTERVAL '3 x'", "INSERT INTO t VALUES (?)"};
  if (r.chance(1, 4)) return gen_reject(r).substr(0, 300);
  return open[r.below(sizeof open / sizeof *open)];
}

Specs c01(G& g) {
  Rng& r = g.r;
  if (r.chance(1, 90)) {  // many threads that come and go
    static const int ns[] = {10, 20, 40, 70, 140, 300, 600, 1100};
    int m = ns[r.below(8)] + (int)r.below(6), w = 1 + (int)r.below(2);
    std::vector<int> ts;
    for (int i = 0; i < 4; i++) {
      std::string t = gen_text(r, g.opt(0, r.chance(1, 2) ? FAM_TINY : FAM_STRINGS));
      ts.push_back(g.text(t.size() > 100 ? "SELECT 'a'" : t));
    }
    ts.push_back(g.text(gen_reject(r).substr(0, 100)));
    bool oom = r.chance(1, 4);
    if (r.chance(1, 2)) {  // texts of other lengths, and padded ones
      std::string t = g.any(2);
      if (t.size() < 1500) ts.push_back(g.text(t));
      for (int i = 0; i < 2; i++) {
        std::string u = g.s.texts[ts[r.below(4)]];
        static const char pad[] = " \t\n ";
        u.insert(0, 1 + r.below(4), pad[r.below(4)]);
        u.append(r.below(4), pad[r.below(4)]);
        ts.push_back(g.text(u));
      }
    }
    for (int p = 0; p < m; p++)
      for (int i = 0; i < w; i++) {
        Actor& a = g.actor(p, i, r.chance(9, 10));
        int ti = ts[r.below(ts.size())];
        a.ops.push_back(G::op(OP_NEW, i));
        bool tk = r.chance(1, 5);
        Op o = tk ? g.tok(ti) : g.parse(i, ti);
        if (oom && r.chance(1, 6)) {
          auto* base = g.base(g.s.texts[ti], tk);
          if (int n = base ? (tk ? base->tallocs : base->pallocs) : 0) o.af.push_back(AllocFault{1 + (int)r.below(n), (int)r.below(3)});
        }
        a.ops.push_back(o);
      }
    g.s.nslots = w;
    g.s.checks = CK_OUTCOME | CK_CRASH;
    g.s.fill = (int)r.below(7);
    if (w > 1) g.schedule();
    return {g.s};
  }
  int n = 2 + (int)r.below(r.chance(1, 5) ? 4 : 2);
  int phases = r.chance(1, 4) ? 2 : 1;
  bool many = r.chance(1, 12);  // more threads in the middle of a call than there are processors
  if (many) n = 8 + (int)r.below(8);
  bool oom = r.chance(1, 6);  // some calls fail for lack of memory, the others must not notice
  int kinds = (int)r.below(4);  // 0 mixed, 1 parse, 2 tokenize, 3 same text everywhere
  static const int fams[] = {FAM_STRINGS, FAM_STRINGS, FAM_LITERALS, FAM_ANY, FAM_SELECT, FAM_PARAMS, FAM_DDL, FAM_IMPORT};
  int fam = fams[r.below(8)];
  std::string same = r.chance(1, 3) ? g.any(2) : gen_text(r, g.opt(2, fam));
  if (kinds == 3 && !many && r.chance(1, 3)) {
    size_t len = 200 + r.below(r.chance(1, 4) ? 4000 : 600);
    for (int i = 0; same.size() < len; i++) same += (i % 3 ? ";\n" : "; ") + (r.chance(1, 2) ? gen_text(r, g.opt(1, fam)) : "SELECT a" + std::to_string(i) + " FROM t");
  }
  int slot = 0;
  for (int p = 0; p < phases; p++)
    for (int i = 0; i < n; i++) {
      int ops = 1 + (int)r.below(r.chance(1, 10) ? 6 : 2);
      Actor& a = g.actor(p, i, r.chance(2, 3));
      for (int k = 0; k < ops; k++) {
        std::string t = kinds == 3 ? same : r.chance(1, 2) ? gen_text(r, g.opt(2, fam)) : r.chance(1, 3) ? gen_reject(r) : r.chance(1, 12) ? gen_sized(r, 1200) : g.any(2);
        if (t.size() > 4000) t.resize(4000);
        if (many && t.size() > 200) t = "SELECT 'a', b FROM t";
        int ti = g.text(t);
        bool tk = kinds == 2 || (kinds != 1 && r.chance(1, 3));
        Op o = tk ? g.tok(ti) : g.parse(slot++, ti);
        if (r.chance(1, 8)) o.err = ERANGE;
        if (oom && r.chance(1, 3)) {
          auto* b = g.base(t, tk);
          if (int m = b ? (tk ? b->tallocs : b->pallocs) : 0) o.af.push_back(AllocFault{1 + (int)r.below(m), (int)r.below(3)});
        }
        a.ops.push_back(o);
        if (!tk && r.chance(1, 3)) a.ops.push_back(G::op(r.chance(1, 2) ? OP_RESET : OP_NEW, o.slot));
      }
    }
  g.s.nslots = std::max(1, slot);
  g.s.checks = CK_OUTCOME | CK_CRASH;
  g.s.fill = (int)r.below(7);
  g.schedule();
  if (r.chance(1, 5)) g.s.locale = 1 + (int)r.below(6);
  if (kinds == 3 && r.chance(2, 3)) {  // the text itself is what they share
    g.s.heap = 1;
    if (r.chance(1, 2)) {
      g.s.sched = 3;
      g.s.switches.clear();
      g.s.q = 1 + (int)r.below(4);
      g.s.sseed = r.next() >> 1;
    }
  }
  return {g.s};
}

Specs c02(G& g) {
  Rng& r = g.r;
  g.s.nslots = 3;
  g.s.fill = (int)r.below(9);
  g.s.checks = CK_OUTCOME | CK_CRASH;
  int mode = (int)r.below(8);
  std::vector<int> ts;
  int nt = 1 + (int)r.below(5);
  for (int i = 0; i < nt; i++) {
    std::string t = r.chance(1, 30) ? gen_sized(r, 6000) : r.chance(1, 4) ? gen_reject(r) : g.any(3);
    if (mode == 7) {  // names, options, units and numbers that a locale could touch
      static const int fams[] = {FAM_IMPORT, FAM_IMPORT, FAM_LITERALS, FAM_SELECT, FAM_DDL};
      t = gen_text(r, g.opt(2, fams[r.below(5)]));
    }
    if (t.size() > 6000) t.resize(6000);
    if (r.chance(1, 250)) t = g.large();
    ts.push_back(g.text(t));
  }
  if (r.chance(1, 8)) {  // texts of equal length one after the other in one buffer
    std::string t = g.s.texts[ts[0]];
    if (r.chance(1, 2)) {
      static const int lens[] = {300, 520, 1100, 2100, 4100};
      t = "SELECT a";
      for (size_t len = (size_t)lens[r.below(5)] + r.below(40), i = 0; t.size() < len; i++) t += r.chance(1, 9) ? ", 'x'" : ", b" + std::to_string(i);
      t += " FROM t";
    }
    if (t.size() > 12 && t.size() < 9000) {
      std::vector<int> twins = {g.text(t)};
      for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) {
        std::string u = t;
        static const char bad[] = "#);'\"?x1(";
        size_t at = r.chance(1, 3) ? u.size() - 1 - r.below(10) : r.chance(1, 2) ? r.below(10) : r.below(u.size());
        u[at] = bad[r.below(sizeof bad - 1)];
        if (r.chance(1, 3)) u[r.below(u.size())] = bad[r.below(sizeof bad - 1)];
        twins.push_back(g.text(u));
      }
      Actor& a = g.actor(0, 0);
      for (int i = 0, n = 3 + (int)r.below(5); i < n; i++) {
        int ti = twins[r.below(twins.size())];
        Op o = r.chance(1, 6) ? g.tok(ti) : g.parse(0, ti);
        o.buf = r.chance(1, 8) ? 0 : 1;
        if (o.kind == OP_PARSE) a.ops.push_back(G::op(r.chance(2, 3) ? OP_NEW : OP_RESET, 0));
        a.ops.push_back(o);
      }
      return {g.s};
    }
  }
  if (r.chance(1, 3)) {  // a text and its truncated / damaged twin
    std::string t = g.s.texts[ts[0]];
    ts.push_back(g.text(r.chance(1, 2) ? t.substr(0, r.below(t.size() + 1)) : mutate(r, t)));
  }
  int phases = r.chance(1, 5) ? 2 : 1;
  for (int p = 0; p < phases; p++) {
    Actor& a = g.actor(p, r.chance(1, 2) ? 0 : p, r.chance(1, 2));
    if (mode == 1 && r.chance(1, 3)) {  // whatever piles up over many calls
      std::string t = many_reject(r);
      int ti = g.text(t);
      for (int i = 0, m = 20 + (int)r.below(g.thorough ? 600 : 120); i < m; i++) {
        Op o = r.chance(1, 6) ? g.tok(ti) : g.parse((int)r.below(2), ti);
        a.ops.push_back(o);
      }
      ts.push_back(ti);
    }
    g.flood(a, 2, 1, 150, false);
    if (mode == 2 && r.chance(1, 6)) {  // many different short texts, some of them again
      static const char* tmpl[] = {"SELECT a$ FROM t", "SELECT '$'", "SELECT $ FROM t$", "DELETE FROM t$", "SELECT a FROM t WHERE b = $.5", "SELECT f$(x) AS y$", "SELECT $ $", "DROP TABLE a$"};
      int kind = (int)r.below(12), m = 20 + (int)r.below(g.thorough ? 1000 : 280), from = (int)r.below(1000);
      std::vector<int> seen;
      for (int i = 0; i < m; i++) {
        int ti;
        if (seen.size() > 3 && r.chance(1, 5))
          ti = seen[r.below(seen.size())];
        else {
          std::string t = tmpl[kind < 8 ? kind : (int)r.below(8)], num = std::to_string(from + i);
          for (size_t p; (p = t.find('$')) != std::string::npos;) t.replace(p, 1, num);
          seen.push_back(ti = g.text(t));
        }
        Op o = r.chance(1, 8) ? g.tok(ti) : g.parse(2, ti);
        if (o.kind == OP_PARSE) a.ops.push_back(G::op(OP_RESET, 2));
        a.ops.push_back(o);
      }
    }
    int len = mode == 0 ? 30 + (int)r.below(g.thorough ? 400 : 120) : 2 + (int)r.below(8);
    if (mode == 0)
      for (auto& t : ts)
        if (g.s.texts[t].size() > 300) t = g.text("SELECT a, 'b' FROM t WHERE c = ? LIMIT 1");
    for (int i = 0; i < len; i++) {
      int k = (int)r.below(3);
      int t = ts[r.below(ts.size())];
      if (r.chance(1, 4)) {
        Op o = g.tok(t);
        g.env(o, 1, 2);
        a.ops.push_back(o);
        continue;
      }
      a.ops.push_back(G::op(r.chance(2, 3) ? OP_NEW : OP_RESET, k));
      Op o = g.parse(k, t);
      g.env(o, 1, 2);
      if (mode == 7) o.locale = 1 + (int)r.below(6);
      a.ops.push_back(o);
      if (r.chance(1, 6)) a.ops.push_back(G::op(OP_PRINT, k));
      if (r.chance(1, 10)) a.ops.push_back(G::op(OP_READ, k));
    }
  }
  return {g.s};
}

static const char* kJunk[] = {")", "(", ",", "SELECT", "WHERE", "=", "x9", "'s'", "42", ".", ";", "FROM", "#", "NULL", "\"q\"", "?", "AS", "'open", "*", "BY", "1.5", "99999999999999999999"};

// all cut positions and junk tokens of one text, twelve calls per run, three identical rounds each
Specs c03(G& g) {
  Rng& r = g.r;
  Specs out;
  std::vector<std::string> v;
  int mode = (int)r.below(6);
  std::string t;
  if (mode == 0)
    t = gen_reject(r);
  else if (mode == 1) {
    GenOpt o = g.opt(1);
    t = gen_batch(r, o, 2 + (int)r.below(2), nullptr);
  } else if (r.chance(1, 150)) {
    t = gen_chain(r, 15000 + (int)r.below(10000));
    g.s.rounds = 3;
    g.s.checks = CK_LEAK | CK_CRASH;
    Actor& a = g.actor(0, 0, 0);
    a.ops.push_back(g.parse(0, g.text(t)));
    if (r.chance(1, 2)) a.ops.push_back(G::op(OP_RELEASE, 0));
    a.ops.push_back(G::op(OP_RESET, 0));
    return {g.s};
  } else if (r.chance(1, 14))
    t = gen_sized(r, 900);
  else
    t = gen_text(r, g.opt(mode == 2 ? 3 : 2));
  if (t.size() > 1500) {
    size_t a = r.below(t.size());
    t = t.substr(0, std::min<size_t>(t.size(), a + 200));
    for (size_t i = a; i < t.size(); i++) v.push_back(t.substr(0, i));
  } else if (mode == 5) {
    for (int i = 0; i < 48; i++) v.push_back(mutate(r, t));
  } else {
    Scan sc = scan(t);
    for (auto& k : sc.toks) {
      v.push_back(t.substr(0, k.b));
      v.push_back(t.substr(0, k.b) + " " + kJunk[r.below(22)] + " " + t.substr(k.b));
      v.push_back(t.substr(0, k.b) + " " + kJunk[r.below(22)] + " " + t.substr(k.e));
      v.push_back(t.substr(0, k.b) + t.substr(k.e));
      if (k.kind == T_STRING || k.kind == T_QUOTED || k.kind == T_FLOAT || r.chance(1, 4))
        for (size_t i = k.b + 1; i < k.e; i++) v.push_back(t.substr(0, i));
    }
    v.push_back(t);
    v.push_back(t + ";");
    if (r.chance(1, 4)) {
      v.clear();
      for (size_t i = 0; i <= t.size(); i++) v.push_back(t.substr(0, i));
    }
  }
  size_t cap = g.thorough ? 4000 : 700;
  while (v.size() > cap) v.erase(v.begin() + (long)r.below(v.size()));
  for (size_t i = 0; i < v.size();) {
    G h(r, g.base, g.thorough, g.s.prop, g.s.seed);
    h.s.rounds = 3;
    h.s.nslots = 2;
    h.s.fill = (int)r.below(7);
    h.s.checks = CK_LEAK | CK_CRASH;
    Actor& a = h.actor(0, 0, r.chance(1, 4));
    size_t chars = 0;
    for (int k = 0; k < 12 && i < v.size() && chars < 6000; k++, i++) {
      int ti = h.text(v[i]);
      chars += v[i].size();
      if (r.chance(1, 5)) a.ops.push_back(h.tok(ti));
      a.ops.push_back(h.parse(r.chance(1, 8) ? 1 : 0, ti));
      int x = (int)r.below(10);
      if (x < 4) a.ops.push_back(G::op(OP_RESET, 0));
      if (x == 4) a.ops.push_back(G::op(OP_NEW, 0));
      if (x == 5) {
        a.ops.push_back(G::op(OP_RELEASE, 0));
        a.ops.push_back(G::op(OP_DROPALL));
      }
      if (x == 6) a.ops.push_back(G::op(OP_PRINT, 0));
      if (x == 7) a.ops.push_back(G::op(OP_MOVEA, 1, 0));
    }
    out.push_back(h.s);
  }
  return out;
}

Specs c04(G& g) {
  Rng& r = g.r;
  g.s.oracle = 4;
  g.s.checks = CK_CRASH;
  Actor& a = g.actor(0, 0);
  if (r.chance(1, 110)) {  // damage far from the start
    static const int at[] = {4096, 8192, 16384, 32768, 65536, 65536, 65536, 131072};
    size_t n = (size_t)at[r.below(8)] + (size_t)r.range(-20, 40);
    std::string t = r.chance(1, 2) ? "SELECT a FROM t" : g.ok_text(1);
    static const char* unit[] = {" ", "\n", "-- x\n", " \n\t", " OR a9x = 1", ";SELECT 1"};
    int u = (int)r.below(8);
    if (u == 4) t = "SELECT a FROM t WHERE a";
    if (u >= 6)
      t = std::string("SELECT ") + (u == 6 ? "'" : "\"") + std::string(n, 'x') + (u == 6 ? "'" : "\"") + " FROM t";
    else {
      t.reserve(n + 20);
      while (t.size() < n) t += unit[u];
    }
    static const char* tail[] = {"", ";", " ", ")", " )", "; SELECT b9x FROM u9x", " 'open", " #", ";\nSELECT #", "; SELECT 1 FROM", "\n;DELETE FROM t9x WHERE a = '"};
    if (r.chance(1, 6)) t = gen_huge(r, r.chance(2, 3));
    t += tail[r.below(11)];
    int ti = g.text(t);
    a.ops.push_back(g.parse(0, ti));
    a.ops.back().api = (int)r.below(3);
    a.ops.push_back(g.tok(ti));
    return {g.s};
  }
  int n = 4 + (int)r.below(5);
  GenOpt o = g.opt(2);
  std::string t;
  if (r.chance(1, 3))
    t = gen_batch(r, o, 2 + (int)r.below(3), nullptr);
  else if (r.chance(1, 6))
    t = g.any(2);
  else
    t = gen_text(r, o);
  if (t.size() > 1500) t = gen_text(r, g.opt(1, FAM_SELECT));
  for (int i = 0; i < n; i++) {
    std::string x = i == 0 && r.chance(1, 2) ? t : mutate(r, t);
    int ti = g.text(x);
    if (i) a.ops.push_back(G::op(OP_NEW, 0));
    Op p = g.parse(0, ti);
    if (x.find('\0') != std::string::npos) p.api = r.chance(1, 2) ? 0 : 1;
    a.ops.push_back(p);
    if (r.chance(1, 3)) a.ops.push_back(g.tok(ti));
  }
  return {g.s};
}

Specs c05(G& g) {
  Rng& r = g.r;
  g.s.checks = CK_REJECT | CK_MODEL | CK_PARAMS | CK_CRASH;
  g.s.nslots = 2;
  g.s.nbags = 2;
  g.s.fill = (int)r.below(7);
  Actor& a = g.actor(0, 0);
  int n = 1 + (int)r.below(5);
  std::string pt = r.chance(1, 3) ? g.ok_text(2, FAM_PARAMS) : "";
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(2);
    int x = (int)r.below(10);
    if (x < 4) {  // something to hold
      int fam = r.chance(1, 2) ? FAM_PARAMS : -1;
      std::string t = pt.size() && r.chance(1, 2) ? pt : g.ok_text(2, fam);
      a.ops.push_back(g.parse(k, g.text(t)));
    } else if (x == 4)
      a.ops.push_back(G::op(OP_RESET, k));
    else if (x == 5) {
      a.ops.push_back(G::op(OP_RELEASE, k));
    } else if (x == 6) {
      a.ops.push_back(G::op(OP_ADD, k));
    } else if (x == 7)
      a.ops.push_back(G::op(OP_MOVEA, k, 1 - k));
    // a reject
    std::string b;
    int y = (int)r.below(8);
    if (y < 3)
      b = g.bad_text();
    else if (y < 6) {  // several statements, one damaged, with placeholders
      GenOpt o = g.opt(1, r.chance(2, 3) ? FAM_PARAMS : FAM_ANY);
      if (r.chance(1, 12)) {
        static const int kinds[] = {5, 15, 30, 6, 31, 18, 19, 28};
        b = gen_sized(r, 3000, kinds[r.below(8)]);
      } else
        b = gen_batch(r, o, 2 + (int)r.below(r.chance(1, 5) ? 16 : 3), nullptr);
      static const char* tail[] = {" )", "; SELECT", ";;", " 'open", "; SELECT ? FROM (", " ; x", "\n\n;\n)", " #", ", ", "; SELECT 99999999999999999999", ";\n-- c\nSELECT 'a\nb", " FROM WHERE ? ="};
      b += tail[r.below(12)];
    } else
      b = mutate(r, gen_text(r, g.opt(2, FAM_PARAMS)));
    if (r.chance(1, 60)) {  // a position far from the start
      static const char* unit[] = {" ", "\n", "-- x\n", " \n\t", "/"};
      static const char* head[] = {"", "SELECT 1", "SELECT a FROM t;", "INSERT INTO t VALUES (?, "};
      int n = r.chance(2, 3) ? 32700 + (int)r.below(200) : 65500 + (int)r.below(200);
      std::string far = head[r.below(4)];
      int u = (int)r.below(6);
      if (u == 4)
        far += " '" + std::string((size_t)n, 'x') + "'";
      else if (u == 5)
        far += " " + std::string((size_t)n, 'y');
      else
        while ((int)far.size() < n) far += unit[u];
      if (r.chance(1, 12)) far = gen_huge(r, false);
      b = far + (r.chance(1, 2) ? " FROM FROM" : " " + b);
    }
    Op o = g.parse(k, g.text(b));
    if (r.chance(1, 5)) {
      std::string t2 = g.ok_text(2, FAM_PARAMS);
      if (r.chance(1, 2)) {
        std::string t3 = gen_batch(r, g.opt(0, r.chance(1, 2) ? FAM_TINY : FAM_PARAMS), 2 + (int)r.below(6), nullptr);
        auto* b3 = g.base(t3, false);
        if (b3 && b3->valid) t2 = t3;
      }
      o.text = g.text(t2);
      auto* bb = g.base(t2, false);
      if (bb && bb->pallocs) {
        // mostly late: statements exist by then
        int c = (int)r.below(3), lo = c == 0 ? 0 : c == 1 ? bb->pallocs * 3 / 4 : std::max(0, bb->pallocs - 8);
        o.af.push_back(AllocFault{1 + lo + (int)r.below((uint64_t)std::max(1, bb->pallocs - lo)), (int)r.below(3)});
      }
    }
    a.ops.push_back(o);
    if (r.chance(1, 4)) a.ops.push_back(G::op(OP_READ, k));
  }
  g.blind(1, 5);
  return {g.s};
}

// one text, every allocation of its call
Specs c06(G& g) {
  Rng& r = g.r;
  Specs out;
  static const int fams[] = {FAM_STRINGS, FAM_ANY, FAM_SELECT, FAM_DDL, FAM_IMPORT, FAM_PARAMS, FAM_LITERALS, FAM_TINY, FAM_ERRORS, FAM_DIAG};
  int fam = fams[r.below(10)];
  std::string t = r.chance(1, 8) ? gen_reject(r) : r.chance(1, 12) ? gen_sized(r, r.chance(1, 4) ? 2400 : 500) : gen_text(r, g.opt(2, fam));
  if (t.size() > 2500) t = gen_text(r, g.opt(1, fam));
  bool tk = r.chance(1, 4);
  auto* b = g.base(t, tk);
  if (!b) return out;
  int n = tk ? b->tallocs : b->pallocs;
  std::vector<AllocFault> fs;
  int cap = g.thorough ? 400 : 90;
  if (n * 2 <= cap) {
    for (int i = 1; i <= n; i++)
      for (int m = 0; m < (n * 3 <= cap ? 3 : 2); m++) fs.push_back(AllocFault{i, m});
  } else {
    for (int i = 1; i <= n && i <= 8; i++)
      for (int m = 0; m < 2; m++) fs.push_back(AllocFault{i, m});
    while ((int)fs.size() < cap) fs.push_back(AllocFault{1 + (int)r.below(n), (int)r.below(3)});
  }
  bool reuse = r.chance(1, 6);
  std::string first = reuse ? g.ok_text(1) : "";
  for (auto& f : fs) {
    G h(r, g.base, g.thorough, g.s.prop, g.s.seed);
    h.s.checks = CK_OOM | CK_CRASH;
    h.s.fill = (int)r.below(7);
    Actor& a = h.actor(0, 0);
    if (reuse) a.ops.push_back(h.parse(0, h.text(first)));
    int ti = h.text(t);
    Op o = tk ? h.tok(ti) : h.parse(0, ti);
    if (o.kind == OP_PARSE) o.api = 0;
    if (r.chance(1, 8)) o.err = ENOMEM;
    o.af.push_back(f);
    if (f.mode == 0)
      for (int k = 0, m = (int)r.below(3); k < m; k++) o.af.push_back(AllocFault{f.nth + 1 + (int)r.below(6), 0});
    a.ops.push_back(o);
    if (r.chance(1, 4) && !tk) a.ops.push_back(G::op(OP_READ, 0));
    out.push_back(h.s);
  }
  return out;
}

Specs c07(G& g) {
  Rng& r = g.r;
  g.s.checks = CK_OUTCOME | CK_MODEL | CK_CRASH;
  g.s.nslots = 3;
  g.s.fill = (int)r.below(7);
  Actor& a = g.actor(0, 0);
  int rounds = 1 + (int)r.below(5);
  std::vector<std::string> pool;
  for (int i = 0; i < 3; i++) pool.push_back(g.any(2));
  pool.push_back(gen_text(r, g.opt(2, FAM_STRINGS)));
  for (auto& t : pool)
    if (t.size() > 3000) t.resize(3000);
  if (r.chance(1, 80)) pool[0] = g.large();
  for (int i = 0; i < rounds; i++) {
    int fails = 1 + (int)r.below(3), k = (int)r.below(3);
    if (r.chance(1, 14)) {  // whatever piles up over many failing calls
      std::string t = many_reject(r);
      int ti = g.text(t);
      auto* b = g.base(t, false);
      int n = b ? b->pallocs : 0, oom = r.chance(1, 3) ? 2 : 5;
      for (int j = 0, m = 20 + (int)r.below(g.thorough ? 600 : 150); j < m; j++) {
        Op o = r.chance(1, 8) ? g.tok(ti) : g.parse(k, ti);
        if (n && o.kind == OP_PARSE && r.chance(1, oom)) o.af.push_back(AllocFault{1 + (int)r.below(n), (int)r.below(3)});
        a.ops.push_back(o);
      }
      if (r.chance(1, 2)) pool.push_back(t);
    }
    if (r.chance(1, 20)) g.worn(a, k, pool[r.below(pool.size())]);
    g.flood(a, k, 1, 150, true);
    for (int j = 0; j < fails; j++) {
      int x = (int)r.below(8);
      std::string t = r.chance(1, 2) ? r.pick(pool) : x < 4 ? gen_text(r, g.opt(2, r.chance(1, 2) ? FAM_STRINGS : FAM_ANY)) : gen_reject(r);
      if (t.size() > 3000) t.resize(3000);
      bool tk = r.chance(1, 4);
      int ti = g.text(t);
      Op o = tk ? g.tok(ti) : g.parse(k, ti);
      if (x < 5) {
        auto* b = g.base(t, tk);
        int n = b ? (tk ? b->tallocs : b->pallocs) : 0;
        if (n) {
          o.af.push_back(AllocFault{1 + (int)r.below(n), (int)r.below(3)});
          if (r.chance(1, 4)) o.af.push_back(AllocFault{1 + (int)r.below(n), 0});
        }
      } else if (x == 5)
        o.sink = 1 + (int)r.below(SINK_NMODES - 1), o.sinkn = (int)r.below(4);
      if (r.chance(1, 5)) o.err = ERANGE;
      a.ops.push_back(o);
    }
    // probes
    int probes = 1 + (int)r.below(3);
    for (int j = 0; j < probes; j++) {
      int ti = g.text(r.chance(2, 3) ? r.pick(pool) : [&] {
        std::string t = g.any(2);
        if (t.size() > 3000) t.resize(3000);
        return t;
      }());
      if (r.chance(1, 4)) {
        a.ops.push_back(g.tok(ti));
        continue;
      }
      int q = r.chance(2, 3) ? k : (int)r.below(3);
      a.ops.push_back(G::op(r.chance(2, 3) ? OP_RESET : OP_NEW, q));
      a.ops.push_back(g.parse(q, ti));
      if (r.chance(1, 5)) a.ops.push_back(G::op(OP_CHECK, q));
    }
  }
  return {g.s};
}

// random histories of the operations on results
void history(G& g, Actor& a, int len, const std::vector<int>& ts, int lo, int hi, int bag, bool destructive) {
  Rng& r = g.r;
  auto sl = [&] { return lo + (int)r.below((uint64_t)(hi - lo)); };
  for (int i = 0; i < len; i++) {
    Op o;
    int x = (int)r.below(28);
    int k = sl();
    if (x < 11) {
      o = g.parse(k, ts[r.below(ts.size())]);
      if (r.chance(1, 8)) g.env(o, 1, 2);
    } else if (x < 13)
      o = G::op(OP_RESET, k);
    else if (x == 13)
      o = G::op(OP_NEW, k);
    else if (x < 16)
      o = G::op(OP_MOVEC, k, sl());
    else if (x < 19)
      o = G::op(OP_MOVEA, k, r.chance(1, 8) ? k : sl());
    else if (x < 21)
      o = G::op(OP_RELEASE, k);
    else if (x < 23) {
      o = G::op(OP_ADD, k);
      o.arg = (int)r.below(4);
    } else if (x == 23) {
      o = G::op(OP_WRAP, k);
      o.arg = (int)r.below(4);
    } else if (x == 24) {
      o = G::op(r.chance(1, 2) && destructive ? OP_DROPALL : OP_DROP);
      o.arg = (int)r.below(4);
    } else if (x == 25)
      o = G::op(OP_CHECKBAG);
    else if (x == 26)
      o = G::op(OP_READ, k);
    else
      o = r.chance(1, 2) ? G::op(OP_PRINT, k) : G::op(OP_PRINTBAG);
    if (o.kind == OP_PRINT || o.kind == OP_PRINTBAG) o.arg = (int)r.below(3);
    o.bag = bag;
    a.ops.push_back(o);
  }
}
std::vector<int> hist_texts(G& g, int n, int fam) {
  std::vector<int> ts;
  for (int i = 0; i < n; i++) {
    std::string t = g.r.chance(1, 4) ? g.bad_text() : g.r.chance(1, 4) ? gen_batch(g.r, g.opt(1, fam), 2 + (int)g.r.below(2), nullptr) : gen_text(g.r, g.opt(2, fam));
    if (g.r.chance(1, 25)) t = gen_sized(g.r, 1500);
    if (t.size() > 3000) t = "SELECT ? FROM t";
    ts.push_back(g.text(t));
  }
  return ts;
}
Specs c08(G& g) {
  Rng& r = g.r;
  g.s.checks = CK_MODEL | CK_CRASH;
  g.s.nslots = 2 + (int)r.below(3);
  g.s.fill = (int)r.below(7);
  if (r.chance(1, 4)) {
    g.s.rounds = 3;
    g.s.checks |= CK_LEAK;
  }
  auto ts = hist_texts(g, 2 + (int)r.below(3), r.chance(1, 3) ? FAM_PARAMS : -1);
  Actor& a = g.actor(0, 0);
  if (r.chance(1, 20)) {  // one result that only grows
    int m = 10 + (int)r.below(60);
    for (int i = 0; i < m; i++) a.ops.push_back(g.parse(0, ts[r.below(ts.size())]));
  }
  history(g, a, 3 + (int)r.below(r.chance(1, 6) ? 60 : 16), ts, 0, g.s.nslots, 0, true);
  g.blind(1, 3);
  return {g.s};
}
Specs c10(G& g) {
  Rng& r = g.r;
  g.s.checks = CK_PARAMS | CK_CRASH;
  g.s.oracle = 10;
  g.s.nslots = 2 + (int)r.below(2);
  g.s.fill = (int)r.below(7);
  std::vector<int> ts;
  int n = 1 + (int)r.below(4);
  for (int i = 0; i < n; i++) {
    std::string t;
    int x = (int)r.below(10);
    if (x < 5)
      t = gen_text(r, g.opt(3, FAM_PARAMS));
    else if (x < 7)
      t = gen_batch(r, g.opt(2, FAM_PARAMS), 2 + (int)r.below(3), nullptr);
    else if (x == 7) {
      int m = 1 + (int)r.below(r.chance(1, 20) ? 400 : 40);
      t = "SELECT ";
      for (int k = 0; k < m; k++) t += k ? ", ?" : "?";
      t += " FROM t";
    } else if (r.chance(1, 30)) {
      static const int kinds[] = {6, 15, 30, 31, 26};
      t = gen_sized(r, 9000, kinds[r.below(5)]);
    } else if (x == 8)
      t = g.bad_text();
    else
      t = gen_text(r, g.opt(2));
    if (t.size() > 12000) t = "SELECT ? FROM t";
    ts.push_back(g.text(t));
  }
  if (r.chance(1, 50)) {  // long scripts with placeholders
    static const int lens[] = {5000, 9000, 17000, 20000, 34000, 66000, 132000};
    static const char* sep[] = {";\n", "; ", ";", ";\n\n"};
    size_t len = (size_t)lens[r.below(7)] + r.below(300);
    std::string e = sep[r.below(4)], t;
    std::vector<std::string> st = {"DELETE FROM t WHERE a = ?", "UPDATE t SET a = ?, b = 'x' WHERE c = ?", "SELECT a, b FROM t"};
    std::string p = gen_text(r, g.opt(1, FAM_PARAMS));
    auto* b = g.base(p, false);
    if (p.size() < 400 && b && b->valid) st.push_back(p);
    for (size_t i = r.below(7); t.size() < len; i++) t += (t.empty() ? "" : e) + st[r.below(3) ? i % st.size() : r.below(st.size())];
    if (r.chance(1, 2)) t += e;
    if (r.chance(3, 4)) {
      Actor& a = g.actor(0, 0);
      a.ops.push_back(g.parse(0, g.text(t)));
      if (r.chance(1, 3)) a.ops.push_back(g.parse(0, g.text("SELECT ? FROM t")));
      return {g.s};
    }
    ts.push_back(g.text(t));
  }
  Actor& a = g.actor(0, 0);
  if (r.chance(1, 12)) {  // many texts into one result: numbers repeat
    int m = 10 + (int)r.below(g.thorough ? 120 : 50), reject = r.chance(1, 2) ? g.text(g.bad_text()) : ts[0];
    for (auto& t : ts)
      if (g.s.texts[t].size() > 600) t = g.text("SELECT * FROM t WHERE a = ? OR b = ?");
    for (int i = 0; i < m; i++) a.ops.push_back(g.parse(0, r.chance(1, 10) ? reject : ts[r.below(ts.size())]));
  }
  if (r.chance(1, 2)) {
    for (auto t : ts) {
      a.ops.push_back(G::op(OP_NEW, 0));
      a.ops.push_back(g.parse(0, t));
    }
  } else
    history(g, a, 3 + (int)r.below(14), ts, 0, g.s.nslots, 0, true);
  g.blind(1, 2);
  return {g.s};
}
Specs c09(G& g) {
  Rng& r = g.r;
  g.s.checks = CK_MODEL | CK_CRASH | CK_PRINT;
  g.s.fill = (int)r.below(7);
  if (r.chance(1, 2)) {
    g.s.rounds = 3;
    g.s.checks |= CK_LEAK;
  }
  static const int sizes[] = {2, 3, 4, 8};
  if (r.chance(1, 6)) {  // the statements of one text are shared out among threads
    int n = 2 + (int)r.below(3), k = sizes[r.below(4)];
    bool tear = r.chance(1, 2);  // they do nothing but destroy them, at the same time
    g.s.nslots = 2 * n;
    g.s.nbags = n;
    Actor& a = g.actor(0, 0, r.chance(1, 2));
    a.ops.push_back(g.parse(0, g.text(gen_batch(r, g.opt(1, r.chance(1, 2) ? FAM_ANY : FAM_TINY), k, nullptr))));
    if (r.chance(1, 3)) a.ops.push_back(g.parse(0, g.text(gen_batch(r, g.opt(1), 2, nullptr))));
    if (r.chance(1, 4)) a.ops.push_back(G::op(OP_MOVEC, 1, 0));
    a.ops.push_back(G::op(OP_RELEASE, a.ops.back().kind == OP_MOVEC ? 1 : 0));
    if (r.chance(1, 2)) a.ops.push_back(G::op(OP_NEW, 0));
    for (int i = 0; i < k; i++) {
      Op o = G::op(OP_GIVE);
      o.slot2 = i % n;
      o.arg = (int)r.below(8);
      a.ops.push_back(o);
    }
    for (int i = 0; i < n; i++) {
      Actor& b = g.actor(1, i ? i : (int)r.below(2) * 9, r.chance(1, 2));
      if (tear) {
        if (r.chance(1, 4)) b.ops.push_back(G::op(OP_CHECKBAG));
        for (int j = (int)r.below(4); j > 0; j--) b.ops.push_back(G::op(OP_DROP));
        b.ops.push_back(G::op(OP_DROPALL));
        for (auto& o : b.ops) o.bag = i, o.arg = (int)r.below(4);
        continue;
      }
      for (int j = 0, m = 1 + (int)r.below(5); j < m; j++) {
        static const int ks[] = {OP_DROP, OP_DROP, OP_DROPALL, OP_PRINTBAG, OP_PRINTBAG, OP_CHECKBAG, OP_WRAP, OP_ADD};
        Op o = r.chance(1, 8) ? g.parse(2 * i, g.text(gen_text(r, g.opt(1)))) : G::op(ks[r.below(8)], 2 * i + 1);
        o.bag = i;
        o.arg = (int)r.below(4);
        b.ops.push_back(o);
      }
      if (r.chance(1, 2)) {
        Op o = G::op(OP_DROPALL);
        o.bag = i;
        b.ops.push_back(o);
      }
    }
    g.schedule();
    if (tear && r.chance(2, 3)) {
      static const int qs[] = {1, 1, 2, 2, 3, 5};
      g.s.switches.clear();
      g.s.heap = 1;
      g.s.sched = 3;
      g.s.q = qs[r.below(6)];
      g.s.sseed = r.next() >> 1;
    }
    g.blind(1, 3);
    return {g.s};
  }
  int n = 1 + (int)r.below(3);  // parsers in phase 0
  g.s.nslots = 2 * n;
  g.s.nbags = n + 1;
  static const int fams[] = {FAM_STRINGS, FAM_ANY, FAM_SELECT, FAM_DDL, FAM_IMPORT, FAM_PARAMS, FAM_LITERALS, FAM_TINY};
  auto pick = [&] {
    std::string t = r.chance(1, 25) ? gen_batch(r, g.opt(0, r.chance(1, 2) ? FAM_TINY : FAM_ANY), 10 + (int)r.below(90), nullptr) : r.chance(1, 4) ? gen_batch(r, g.opt(1), 2, nullptr) : r.chance(1, 30) ? gen_sized(r, 1500) : gen_text(r, g.opt(2, fams[r.below(8)]));
    if (t.size() > 3000) t = "SELECT 'x' FROM t";
    return g.text(t);
  };
  int phases = 2 + (int)r.below(3);
  for (int p = 0; p < phases; p++)
    for (int i = 0; i < n; i++) {
      // owner of slots 2i,2i+1 and bag i in this phase: any thread, old or new
      int owner = r.chance(1, 2) ? i : p * n + i;
      if (owner > 14) owner = i;
      bool taken = false;
      if ((int)g.s.phases.size() > p)
        for (auto& a : g.s.phases[p].actors)
          if (a.id == owner) taken = true;
      if (taken) owner = p * n + i <= 14 ? p * n + i : 14 - i;
      taken = false;
      if ((int)g.s.phases.size() > p)
        for (auto& a : g.s.phases[p].actors)
          if (a.id == owner) taken = true;
      if (taken) continue;
      int part = (i + p * (int)r.below(2)) % n;
      // rotate ownership of the parts between phases
      part = (i + p) % n;
      Actor& a = g.actor(p, owner, r.chance(2, 3));
      int lo = 2 * part;
      if (p == 0 || r.chance(1, 2)) {
        a.ops.push_back(g.parse(lo, pick()));
        if (r.chance(1, 2)) a.ops.push_back(g.parse(lo + 1, pick()));
      }
      int m = 1 + (int)r.below(6);
      for (int k = 0; k < m; k++) {
        Op o;
        switch (r.below(11)) {
          case 0:
          case 1:
          case 2: o = G::op(OP_RELEASE, lo + (int)r.below(2)); break;
          case 3: o = G::op(OP_MOVEC, lo, lo + 1); break;
          case 4: o = G::op(OP_MOVEA, lo + 1, lo); break;
          case 5: o = G::op(OP_WRAP, lo + (int)r.below(2)); break;
          case 6: o = G::op(OP_ADD, lo + (int)r.below(2)); break;
          case 7: o = G::op(OP_CHECKBAG); break;
          case 8: o = G::op(OP_PRINTBAG); break;
          case 9: o = G::op(r.chance(1, 3) ? OP_DROPALL : OP_DROP); break;
          default: o = r.chance(1, 2) ? G::op(OP_NEW, lo) : g.parse(lo + (int)r.below(2), pick());
        }
        o.bag = part;
        o.arg = (int)r.below(r.chance(1, 4) ? 100 : 4);
        a.ops.push_back(o);
      }
    }
  g.schedule();
  g.blind(1, 3);
  return {g.s};
}
Specs c11(G& g) {
  Rng& r = g.r;
  g.s.checks = CK_MODEL | CK_PRINT | CK_CRASH;
  g.s.fill = (int)r.below(7);
  int nt = 1 + (int)r.below(3);
  g.s.nslots = nt;
  Actor& a = g.actor(0, 0, r.chance(1, 2));
  std::vector<int> ts;
  for (int i = 0; i < nt; i++) {
    std::string t = r.chance(1, 4) ? g.any(2) : g.ok_text(3, r.chance(1, 2) ? FAM_ANY : (int)r.below(FAM_N));
    if (r.chance(1, 20)) t = gen_sized(r, 1500);
    if (t.size() > 3000) t = "SELECT a FROM t";
    ts.push_back(g.text(t));
    a.ops.push_back(g.parse(i, ts.back()));
  }
  if (r.chance(1, 2)) {  // failing stream, one thread
    g.s.rounds = 3;
    g.s.checks |= CK_LEAK;
    Actor& b = g.actor(1, r.chance(1, 2) ? 0 : 1);
    int n = 2 + (int)r.below(6);
    for (int i = 0; i < n; i++) {
      Op o = G::op(OP_PRINT, (int)r.below((uint64_t)nt));
      o.arg = (int)r.below(3);
      if (r.chance(2, 3)) {
        o.out = 1 + (int)r.below(4);
        auto* bb = g.base(g.s.texts[ts[o.slot]], false);
        size_t len = bb && !bb->prints.empty() ? bb->prints[(size_t)o.arg % bb->prints.size()].size() : 10;
        o.outn = (int)r.below(len + 2);
      }
      g.env(o, 1, 8);
      o.locale = 0;
      b.ops.push_back(o);
      if (r.chance(1, 3)) b.ops.push_back(G::op(OP_READ, o.slot));
    }
    // and normally again
    for (int i = 0; i < nt; i++) b.ops.push_back(G::op(OP_PRINT, i));
  } else {
    int n = 2 + (int)r.below(3);
    for (int i = 0; i < n; i++) {
      Actor& b = g.actor(1, 1 + i);
      int m = 1 + (int)r.below(3);
      bool parser = i == n - 1 && r.chance(1, 4);
      for (int k = 0; k < m; k++) {
        Op o = parser ? g.tok(ts[0]) : G::op(r.chance(1, 3) ? OP_READ : OP_PRINT, (int)r.below((uint64_t)nt));
        o.arg = (int)r.below(3);
        b.ops.push_back(o);
      }
    }
    g.schedule();
    if (r.chance(1, 2)) {
      Actor& b = g.actor(2, 9);
      for (int i = 0; i < nt; i++) b.ops.push_back(G::op(OP_PRINT, i));
    }
  }
  return {g.s};
}
Specs c12(G& g) {
  Rng& r = g.r;
  g.s.oracle = 12;
  g.s.checks = CK_CRASH;
  GenOpt o = g.opt(2);
  if (r.chance(1, 3)) o.family = FAM_TINY;
  o.semicolon_hints = true;
  int n = 1 + (int)r.below(r.chance(1, 8) ? 12 : 5);
  std::vector<std::string> parts;
  Gen gg(r, o);
  gg.uniq = (int)r.below(1000);
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 2)) gg.o.family = (int)r.below(FAM_N);
    std::string p = gg.text();
    if (r.chance(1, 12) && !corpus_good().empty()) {
      std::string c = r.pick(corpus_good());
      if (c.size() < 1500) {
        while (!c.empty() && (c.back() == ';' || c.back() == '\n' || c.back() == ' ')) c.pop_back();
        p = c;
      }
    }
    if (r.chance(1, 60)) {
      static const int kinds[] = {0, 1, 2, 3, 7, 8, 9, 10, 12, 13, 14, 16, 17, 18, 21, 29, 32, 33, 34, 38};
      p = gen_sized(r, 4000, kinds[r.below(20)]);
    }
    parts.push_back(p);
  }
  if (r.chance(1, 120)) {  // lengths beyond 16 bits
    static const int kinds[] = {0, 1, 8, 9, 16, 32, 33};
    n = 1 + (int)r.below(3);
    parts.resize((size_t)n, "DELETE FROM t");
    parts[r.below(parts.size())] = r.chance(1, 8) ? gen_huge(r, false) : gen_sized(r, 70000, kinds[r.below(7)]);
  } else if (r.chance(1, 60)) {  // many statements
    n = 10 + (int)r.below(g.thorough ? 600 : 290);
    if (r.chance(1, 8)) {
      static const int ns[] = {1000, 1024, 2048, 4096, 5000};
      n = ns[r.below(5)] + (int)r.below(30);
    }
    std::string p = n >= 1000 ? "BEGIN" : r.chance(1, 2) ? "SELECT a, 'b' FROM t" : "DELETE FROM t WHERE a = ?";
    parts.assign((size_t)n, p);
    parts[r.below(parts.size())] = gg.text();
  }
  if (r.chance(1, 10)) parts[r.below(parts.size())] = gen_reject(r);
  static const char* sep[] = {";", "; ", ";\n", " ; ", ";\t\n ", "; -- next\n", ";--\n", " ;", "\n;\n", " -- end of it\n; ", "; -- a; b\n\n\t"};
  std::string batch;
  if (r.chance(1, 4)) {
    static const char* lead[] = {" ", "\n", "\t\n", "-- first\n", "  --\n"};
    batch += lead[r.below(5)];
    if (r.chance(1, 3)) batch += std::string(r.below(r.chance(1, 4) ? 600 : 50), " \n\t "[r.below(4)]);
  }
  for (int i = 0; i < n; i++) {
    if (i) batch += sep[r.below(11)];
    if (i && r.chance(1, 20)) batch += std::string(r.below(50), " \n\t "[r.below(4)]);
    batch += parts[i];
  }
  if (r.chance(1, 2)) batch += sep[r.below(11)];
  if (r.chance(1, 8)) batch += "\n";
  if (r.chance(1, 12)) batch += std::string(r.below(50), " \n\t "[r.below(4)]);
  g.s.texts.push_back(batch);
  bool clean = true;
  for (auto& p : parts) {
    Scan sc = scan(p);
    // damaged parts run into the next one; a comment at the end without a newline swallows the separator
    if (sc.bad || (!sc.comments.empty() && sc.comments.back().second == p.size())) clean = false;
    auto* b = g.base(p, false);
    if (b && b->valid && b->stmts.size() != 1) clean = false;  // part holds its own separators
    if (!b || !b->valid) {
      // a rejected part could be completed by the separator only if it ends inside of something
      clean = clean && b && sc.balanced;
      if (!sc.toks.empty() && b) {
        auto& k = sc.toks.back();
        if (p.substr(k.b, k.e - k.b) == ";") clean = false;
        for (auto& q : sc.toks)
          if (p.substr(q.b, q.e - q.b) == ";") clean = false;
      }
      if (sc.toks.empty()) clean = false;
    }
  }
  if (clean)
    for (auto& p : parts) {
      g.s.texts.push_back(p);
      g.s.oargs.push_back((int64_t)g.s.texts.size() - 1);
    }
  Actor& a = g.actor(0, 0);
  a.ops.push_back(g.parse(0, 0));
  a.ops.back().api = 0;
  // other groupings of the same stream
  if (n > 2 && r.chance(1, 2)) {
    int cut = 1 + (int)r.below((uint64_t)n - 1);
    std::string x, y;
    for (int i = 0; i < n; i++) {
      std::string& z = i < cut ? x : y;
      if (!z.empty()) z += sep[r.below(11)];
      z += parts[i];
    }
    for (auto& z : {x, y}) {
      g.s.texts.push_back(z);
      a.ops.push_back(G::op(OP_NEW, 0));
      a.ops.push_back(g.parse(0, (int)g.s.texts.size() - 1));
      a.ops.back().api = 0;
    }
  }
  return {g.s};
}
Specs c13(G& g) {
  Rng& r = g.r;
  g.s.checks = CK_OUTCOME | CK_CRASH;
  g.s.nslots = 2;
  Actor& a = g.actor(0, 0);
  int n = 2 + (int)r.below(5);
  for (int i = 0; i < n; i++) {
    std::string t;
    int x = (int)r.below(10);
    if (x < 4) {
      t = gen_text(r, g.opt(2));
      static const char* d[] = {" # ", " 99999999999999999999 ", "\x01", " 9223372036854775808 ", "'", " @ ", "\r", "\xff", " 18446744073709551616, 99999999999999999999 ", "!"};
      t.insert(r.below(t.size() + 1), d[r.below(10)]);
    } else if (x < 6)
      t = gen_reject(r);
    else if (x < 8)
      t = mutate(r, gen_text(r, g.opt(2)));
    else
      t = gen_text(r, g.opt(2));
    if (t.size() > 3000) t.resize(3000);
    int ti = g.text(t);
    int sink = 1 + (int)r.below(SINK_NMODES - 1), sn = (int)r.below(6);
    if (r.chance(1, 2)) {
      Op o = g.tok(ti);
      o.sink = sink;
      o.sinkn = sn;
      a.ops.push_back(o);
    }
    a.ops.push_back(G::op(OP_NEW, 0));
    Op o = g.parse(0, ti);
    o.sink = sink;
    o.sinkn = sn;
    if (r.chance(1, 4)) o.err = ERANGE;
    if (r.chance(1, 6)) {  // out of memory with a standard error that does not work
      auto* b = g.base(t, false);
      if (int m = b ? b->pallocs : 0) o.af.push_back(AllocFault{1 + (int)r.below(m), (int)r.below(3)});
    }
    a.ops.push_back(o);
  }
  return {g.s};
}
Specs c14(G& g) {
  Rng& r = g.r;
  g.s.checks = CK_CRASH | CK_STEPS;
  g.s.nslots = 2;
  g.s.fill = (int)r.below(7);
  Actor& a = g.actor(0, 0);
  int mode = (int)r.below(10);
  int n = mode < 2 ? 1 : 2 + (int)r.below(8);
  if (mode == 2 && r.chance(1, 4)) g.worn(a, 0, gen_text(r, g.opt(0, FAM_TINY)));
  if (mode == 3) g.flood(a, 1, 1, 4, r.chance(1, 4));
  for (int i = 0; i < n; i++) {
    std::string t;
    int x = (int)r.below(10);
    if (mode < 2)
      t = r.chance(1, 25) ? gen_chain(r, 15000 + (int)r.below(10000)) : r.chance(1, 60) ? gen_huge(r, true) : gen_sized(r, g.thorough ? 60000 : 12000);
    else if (x < 2) {
      int len = (int)r.below(40);
      static const char al[] = "'\"-;?()[]{}<>=|:*+. \n\t\r#ab1_9@\\/";
      for (int k = 0; k < len; k++) t += r.chance(1, 8) ? (char)r.below(256) : al[r.below(sizeof al - 1)];
    } else if (x < 6) {
      t = gen_text(r, g.opt(2, r.chance(1, 2) ? FAM_STRINGS : -1));
      t.resize(r.below(t.size() + 1));
    } else if (x < 8)
      t = mutate(r, g.any(2));
    else
      t = g.any(3);
    if (r.chance(1, 8)) t = mutate(r, t);
    int ti = g.text(t);
    bool tk = r.chance(1, 3);
    if (!tk && (mode < 7 || !i)) a.ops.push_back(G::op(r.chance(1, 2) ? OP_NEW : OP_RESET, 0));  // mode 7..9: everything into one result
    Op o = tk ? g.tok(ti) : g.parse(0, ti);
    if (r.chance(1, 4) && mode >= 2) {
      auto* b = g.base(t, tk);
      int m = b ? (tk ? b->tallocs : b->pallocs) : 0;
      if (m) o.af.push_back(AllocFault{1 + (int)r.below(m), (int)r.below(3)});
    }
    if (r.chance(1, 4)) o.sink = 1 + (int)r.below(SINK_NMODES - 1), o.sinkn = (int)r.below(3);
    if (r.chance(1, 5)) g.env(o, 1, 2);
    a.ops.push_back(o);
  }
  return {g.s};
}
// the process that the calls happen in
Specs c20(G& g) {
  Rng& r = g.r;
  g.s.checks = CK_HOST | CK_CRASH;
  g.s.fill = (int)r.below(7);
  if (r.chance(2, 3)) g.s.host = (int)r.below(128);
  if (r.chance(1, 2)) g.s.locale = 1 + (int)r.below(6);
  static const int fams[] = {FAM_STRINGS, FAM_ANY, FAM_SELECT, FAM_DDL, FAM_IMPORT, FAM_PARAMS, FAM_LITERALS, FAM_LITERALS, FAM_TINY, FAM_ERRORS, FAM_DIAG};
  auto some = [&] {
    std::string t = r.chance(1, 4) ? gen_reject(r) : r.chance(1, 6) ? mutate(r, g.any(2)) : r.chance(1, 12) ? gen_sized(r, r.chance(1, 2) ? 3000 : 12000) : gen_text(r, g.opt(2, fams[r.below(11)]));
    if (r.chance(1, 12)) {  // what makes the library talk
      static const char* d[] = {" # ", " 99999999999999999999 ", "\x01", "'", "\r", " 1.5e400 ", " 0.00000000000000000000001 "};
      t.insert(r.below(t.size() + 1), d[r.below(7)]);
    }
    if (t.size() > 14000) t.resize(14000);
    if (t.size() > 2000 && r.chance(1, 3)) t += r.chance(1, 2) ? " )" : " 'open";
    if (r.chance(1, 200)) t = g.large();
    return t;
  };
  auto call = [&](int slot, bool sinks) {
    std::string t = some();
    bool tk = r.chance(1, 4);
    Op o = tk ? g.tok(g.text(t)) : g.parse(slot, g.text(t));
    if (r.chance(1, 3)) {
      auto* b = g.base(t, tk);
      if (int m = b ? (tk ? b->tallocs : b->pallocs) : 0) o.af.push_back(AllocFault{1 + (int)r.below(m), (int)r.below(3)});
    }
    if (sinks && r.chance(1, 3)) {
      o.sink = 1 + (int)r.below(SINK_NMODES - 1), o.sinkn = (int)r.below(5);
    }
    return o;
  };
  if (r.chance(2, 5)) {  // what other threads see meanwhile
    int n = 1 + (int)r.below(2);
    for (int i = 0; i < n; i++) {
      Actor& a = g.actor(0, i, r.chance(2, 3));
      for (int k = 0, m = 1 + (int)r.below(3); k < m; k++) {
        a.ops.push_back(call(i, false));
        if (r.chance(1, 4)) a.ops.push_back(G::op(OP_PRINT, i));
        if (r.chance(1, 4)) a.ops.push_back(G::op(r.chance(1, 2) ? OP_RESET : OP_NEW, i));
      }
    }
    Actor& b = g.actor(0, 9);
    Op o = G::op(OP_LOOK);
    o.arg = 2 + (int)r.below(r.chance(1, 4) ? 300 : 40);
    b.ops.push_back(o);
    g.s.nslots = n;
    g.schedule();
    g.s.stall = 0;
    return {g.s};
  }
  Actor& a = g.actor(0, 0, r.chance(1, 2));
  g.s.nslots = 2;
  int n = 2 + (int)r.below(6);
  if (r.chance(1, 3)) {  // every allocation of one call
    std::string t = some();
    if (t.size() > 400) t = gen_text(r, g.opt(1, fams[r.below(11)]));
    bool tk = r.chance(1, 4);
    auto* b = g.base(t, tk);
    int m = b ? (tk ? b->tallocs : b->pallocs) : 0, ti = g.text(t);
    for (int i = 1; i <= m && i <= 60; i++) {
      Op o = tk ? g.tok(ti) : g.parse(0, ti);
      o.af.push_back(AllocFault{i, (int)r.below(3)});
      if (r.chance(1, 8)) o.sink = 1 + (int)r.below(SINK_NMODES - 1), o.sinkn = (int)r.below(5);
      a.ops.push_back(o);
      if (!tk && r.chance(1, 3)) a.ops.push_back(G::op(r.chance(1, 2) ? OP_RESET : OP_NEW, 0));
    }
    n = 1;
  }
  g.flood(a, 1, 1, 200, r.chance(1, 3));
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(2);
    Op o = call(k, true);
    if (r.chance(1, 6)) g.env(o, 1, 2);
    a.ops.push_back(o);
    switch (r.below(10)) {
      case 0: a.ops.push_back(G::op(OP_RESET, k)); break;
      case 1: a.ops.push_back(G::op(OP_NEW, k)); break;
      case 2: a.ops.push_back(G::op(OP_MOVEA, 1 - k, k)); break;
      case 3:
        a.ops.push_back(G::op(OP_RELEASE, k));
        a.ops.push_back(G::op(OP_DROPALL, k));
        break;
      case 4: a.ops.push_back(G::op(OP_READ, k)); break;
      case 5:
      case 6:
      case 7:
      case 8: {
        if (r.chance(2, 3)) {
          static const int pf[] = {FAM_ANY, FAM_SELECT, FAM_LITERALS, FAM_LITERALS, FAM_DDL, FAM_PARAMS};
          a.ops.push_back(G::op(OP_NEW, k));
          a.ops.push_back(g.parse(k, g.text(g.ok_text(2, pf[r.below(6)]))));
        }
        Op p = G::op(OP_PRINT, k);
        p.arg = (int)r.below(3);
        if (r.chance(1, 2)) p.out = 1 + (int)r.below(4), p.outn = (int)r.below(60);
        a.ops.push_back(p);
        break;
      }
      default: break;
    }
  }
  return {g.s};
}
}  // namespace

namespace {
std::vector<Spec> gen_plain(const std::string& prop, uint64_t seed, uint64_t index, bool thorough, const BaseFn& base) {
  Rng r(fnv(prop) ^ (seed * 0x9e3779b97f4a7c15ull) ^ (index * 0xd1342543de82ef95ull + 77));
  r.next();
  G g(r, base, thorough, prop, seed * 1000000007ull + index);
  if (prop == "C01") return c01(g);
  if (prop == "C02") return c02(g);
  if (prop == "C03") return c03(g);
  if (prop == "C04") return c04(g);
  if (prop == "C05") return c05(g);
  if (prop == "C06") return c06(g);
  if (prop == "C07") return c07(g);
  if (prop == "C08") return c08(g);
  if (prop == "C09") return c09(g);
  if (prop == "C10") return c10(g);
  if (prop == "C11") return c11(g);
  if (prop == "C12") return c12(g);
  if (prop == "C13") return c13(g);
  if (prop == "C14") return c14(g);
  if (prop == "C20") return c20(g);
  return {};
}
// How the caller holds what it passes in: texts in buffers that it overwrites, results one after the other in one place.
void hand_over(Spec& s, Rng& r) {
  bool oneplace = r.chance(1, 2), buffers = s.prop == "C01" ? r.chance(1, 6) : r.chance(1, 2);
  int kind = (int)r.below(4);
  for (auto& ph : s.phases)
    for (auto& a : ph.actors)
      for (auto& o : a.ops) {
        if (o.kind == OP_NEW && oneplace) s.place = 1;
        if ((o.kind == OP_PARSE || o.kind == OP_TOKENIZE) && buffers && !o.buf && r.chance(2, 3)) o.buf = kind ? kind : 1 + (int)r.below(3);
      }
}
}  // namespace

std::vector<Spec> gen_specs(const std::string& prop, uint64_t seed, uint64_t index, bool thorough, const BaseFn& base) {
  std::vector<Spec> v = gen_plain(prop, seed, index, thorough, base);
  Rng r(fnv("hand over") ^ fnv(prop) ^ (seed * 0x9e3779b97f4a7c15ull) ^ (index * 0xd1342543de82ef95ull + 78));
  r.next();
  for (auto& s : v) {
    hand_over(s, r);
    for (auto& p : s.phases)
      for (auto& a : p.actors)
        for (auto& o : a.ops)
          if ((o.kind == OP_PRINT || o.kind == OP_PRINTBAG) && prop != "C20") s.locale = 0;
  }
  return v;
}
}  // namespace sim
