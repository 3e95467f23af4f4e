#include <locale>
// Operations on the real library, reference model, oracles. Compiled with ASan, without step callbacks.
#include "ops.h"

#include <errno.h>
#include <locale.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <algorithm>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>

#include "SQLParser.h"
#include "core.h"
#include "host.h"
#include "sql/AlterStatement.h"
#include "sql/ImportExportOptions.h"
#include "sqlgen.h"
#include "util/sqlhelper.h"

using namespace hsql;

namespace sim {

Baselines g_base;

// ---------------------------------------------------------------- dump of the syntax tree
static const size_t kPrintDepth = 800;
struct Dump {
  std::string o;
  bool ids;    // parameter numbers
  bool marks;  // C10: parameters and integers >= 900000000 print alike
  bool lens;
  std::vector<const Expr*> params, nodes;
  std::vector<const TableRef*> tables;
  size_t depth = 0;  // length of the longest chain
  Dump(bool ids, bool lens, bool marks = false) : ids(ids), marks(marks), lens(lens) {}

  void s(const char* k, const char* v) {
    if (!v) return;
    o += k;
    o += '=';
    o += esc(v);
    o += ' ';
  }
  void n(const char* k, long long v) {
    o += k;
    o += '=';
    o += std::to_string(v);
    o += ' ';
  }
  void f(const char* k, double v) {
    char b[64];
    uint64_t u;
    memcpy(&u, &v, 8);
    snprintf(b, sizeof b, "%s=%llx ", k, (unsigned long long)u);
    o += b;
  }
  void strs(const char* k, const std::vector<char*>* v) {
    if (!v) return;
    o += k;
    o += "=[";
    for (auto c : *v) {
      o += c ? esc(c) : "NULLPTR";
      o += ' ';
    }
    o += "] ";
  }
  template <class T, class F>
  void vec(const char* k, const std::vector<T*>* v, F fn) {
    if (!v) return;
    o += k;
    o += "=[";
    for (auto* e : *v) {
      fn(e);
      o += ", ";
    }
    o += "] ";
  }
  void exprs(const char* k, const std::vector<Expr*>* v) {
    vec(k, v, [this](const Expr* e) { expr(e); });
  }
  void orders(const char* k, const std::vector<OrderDescription*>* v) {
    vec(k, v, [this](const OrderDescription* d) {
      n("type", d->type);
      n("nulls", d->null_ordering);
      expr(d->expr);
    });
  }
  void coltype(const ColumnType& c) {
    n("ct", (int)c.data_type);
    n("len", c.length);
    n("prec", c.precision);
    n("scale", c.scale);
  }
  void expr(const char* k, const Expr* e) {
    if (!e) return;
    o += k;
    o += '=';
    expr(e);
  }
  // Chains of operators and joins lean to the left: they are walked without recursion.
  bool expr_pre(const Expr* e) {  // false: nothing below e
    if (!e) {
      o += "NULLPTR ";
      return false;
    }
    if (marks && e->type == kExprParameter) {
      o += "P" + std::to_string(e->ival) + " ";
      s("alias", e->alias);
      params.push_back(e);
      return false;
    }
    if (marks && e->type == kExprLiteralInt && !e->isBoolLiteral && e->ival >= 900000000 && e->ival < 900100000) {
      o += "P" + std::to_string(e->ival - 900000000) + " ";
      s("alias", e->alias);
      return false;
    }
    if (nodes.size() < 400) nodes.push_back(e);
    o += "(";
    n("t", e->type);
    s("name", e->name);
    s("table", e->table);
    s("schema", e->schema);
    s("alias", e->alias);
    if (e->fval != 0) f("f", e->fval);
    if (e->type == kExprParameter) {
      params.push_back(e);
      if (ids) {
        n("id", e->ival);
        n("id2", e->ival2);
      }
    } else {
      if (e->ival) n("i", e->ival);
      if (e->ival2) n("i2", e->ival2);
    }
    if (e->datetimeField) n("dt", e->datetimeField);
    if (e->columnType.data_type != DataType::UNKNOWN) coltype(e->columnType);
    if (e->isBoolLiteral) o += "bool ";
    if (e->opType) n("op", e->opType);
    if (e->distinct) o += "distinct ";
    return true;
  }
  void expr_post(const Expr* e) {
    exprs("list", e->exprList);
    if (e->select) select(e->select);
    expr("e2", e->expr2);
    if (auto* w = e->windowDescription) {
      o += "window{";
      exprs("part", w->partitionList);
      orders("order", w->orderList);
      if (auto* d = w->frameDescription) {
        n("ft", d->type);
        for (auto* b : {d->start, d->end})
          if (b) {
            n("off", b->offset);
            n("bt", b->type);
            n("unb", b->unbounded);
          }
      }
      o += "} ";
    }
    o += ")";
  }
  void expr(const Expr* e) {
    std::vector<const Expr*> spine;
    while (expr_pre(e)) {
      spine.push_back(e);
      if (!e->expr) break;
      o += "e1=";
      e = e->expr;
    }
    depth = std::max(depth, spine.size());
    while (!spine.empty()) {
      expr_post(spine.back());
      spine.pop_back();
    }
  }
  void table(const TableRef* t) {
    std::vector<const TableRef*> spine;
    for (;;) {
      if (!t) {
        o += "NULLPTR ";
        break;
      }
      o += "T{";
      n("t", t->type);
      s("schema", t->schema);
      s("name", t->name);
      if (t->select) select(t->select);
      vec("list", t->list, [this](const TableRef* x) { table(x); });
      spine.push_back(t);
      if (tables.size() < 100) tables.push_back(t);
      if (!t->join) break;
      n("join", t->join->type);
      t = t->join->left;
    }
    depth = std::max(depth, spine.size());
    while (!spine.empty()) {
      t = spine.back();
      spine.pop_back();
      if (auto* j = t->join) {
        table(j->right);
        expr("on", j->condition);
        strs("using", j->namedColumns);
      }
      if (t->alias) {
        s("alias", t->alias->name);
        strs("acols", t->alias->columns);
      }
      o += "} ";
    }
  }
  void limit(const char* k, const LimitDescription* l) {
    if (!l) return;
    o += k;
    o += "{";
    expr("limit", l->limit);
    expr("offset", l->offset);
    o += "} ";
  }
  void select(const SelectStatement* q) {
    o += "SELECT{";
    if (lens) n("L", (long long)q->stringLength);
    vec("with", q->withDescriptions, [this](const WithDescription* w) {
      s("alias", w->alias);
      if (w->select) select(w->select);
    });
    if (q->selectDistinct) o += "distinct ";
    exprs("list", q->selectList);
    if (q->fromTable) table(q->fromTable);
    expr("where", q->whereClause);
    if (q->groupBy) {
      exprs("group", q->groupBy->columns);
      expr("having", q->groupBy->having);
    }
    vec("sets", q->setOperations, [this](const SetOperation* p) {
      n("st", p->setType);
      n("all", p->isAll);
      if (p->nestedSelectStatement) select(p->nestedSelectStatement);
      orders("ro", p->resultOrder);
      limit("rl", p->resultLimit);
    });
    orders("order", q->order);
    limit("limit", q->limit);
    vec("lock", q->lockings, [this](const LockingClause* l) {
      n("mode", l->rowLockMode);
      n("policy", l->rowLockWaitPolicy);
      strs("tables", l->tables);
    });
    exprs("hints", q->hints);
    o += "} ";
  }
  void refs(const ReferencesSpecification* r) {
    if (!r) return;
    o += "ref{";
    s("schema", r->schema);
    s("table", r->table);
    strs("cols", r->columns);
    o += "} ";
  }
  void csv(const CsvOptions* c) {
    if (!c) return;
    o += "csv{";
    s("delim", c->delimiter);
    s("null", c->null);
    s("quote", c->quote);
    o += "} ";
  }
  void stmt(const SQLStatement* st) {
    if (!st) {
      o += "NULLPTR";
      return;
    }
    n("T", st->type());
    if (lens && st->type() != kStmtSelect) n("L", (long long)st->stringLength);
    switch (st->type()) {
      case kStmtSelect: select((const SelectStatement*)st); return;  // prints its hints itself
      case kStmtImport: {
        auto* i = (const ImportStatement*)st;
        n("it", i->type);
        s("path", i->filePath);
        s("schema", i->schema);
        s("table", i->tableName);
        expr("where", i->whereClause);
        s("enc", i->encoding);
        csv(i->csv_options);
        break;
      }
      case kStmtExport: {
        auto* i = (const ExportStatement*)st;
        n("it", i->type);
        s("path", i->filePath);
        s("schema", i->schema);
        s("table", i->tableName);
        if (i->select) select(i->select);
        s("enc", i->encoding);
        csv(i->csv_options);
        break;
      }
      case kStmtInsert: {
        auto* i = (const InsertStatement*)st;
        n("it", i->type);
        s("schema", i->schema);
        s("table", i->tableName);
        strs("cols", i->columns);
        exprs("values", i->values);
        if (i->select) select(i->select);
        break;
      }
      case kStmtUpdate: {
        auto* u = (const UpdateStatement*)st;
        if (u->table) table(u->table);
        vec("upd", u->updates, [this](const UpdateClause* c) {
          s("col", c->column);
          expr(c->value);
        });
        expr("where", u->where);
        break;
      }
      case kStmtDelete: {
        auto* d = (const DeleteStatement*)st;
        s("schema", d->schema);
        s("table", d->tableName);
        expr("where", d->expr);
        break;
      }
      case kStmtCreate: {
        auto* c = (const CreateStatement*)st;
        n("ct", c->type);
        n("ine", c->ifNotExists);
        s("path", c->filePath);
        s("schema", c->schema);
        s("table", c->tableName);
        s("index", c->indexName);
        strs("icols", c->indexColumns);
        vec("cols", c->columns, [this](const ColumnDefinition* d) {
          s("name", d->name);
          coltype(d->type);
          n("nullable", d->nullable);
          if (d->column_constraints) {
            std::set<int> k;
            for (auto x : *d->column_constraints) k.insert((int)x);
            for (int x : k) n("cc", x);
          }
          vec("refs", d->references, [this](const ReferencesSpecification* r) { refs(r); });
        });
        vec("tc", c->tableConstraints, [this](const TableConstraint* t) {
          n("type", (int)t->type);
          strs("cols", t->columnNames);
          if (auto* fk = dynamic_cast<const ForeignKeyConstraint*>(t)) refs(fk->references);
        });
        strs("vcols", c->viewColumns);
        if (c->select) select(c->select);
        break;
      }
      case kStmtDrop: {
        auto* d = (const DropStatement*)st;
        n("dt", d->type);
        n("ie", d->ifExists);
        s("schema", d->schema);
        s("name", d->name);
        s("index", d->indexName);
        break;
      }
      case kStmtPrepare: {
        auto* p = (const PrepareStatement*)st;
        s("name", p->name);
        s("query", p->query);
        break;
      }
      case kStmtExecute: {
        auto* e = (const ExecuteStatement*)st;
        s("name", e->name);
        exprs("params", e->parameters);
        break;
      }
      case kStmtAlter: {
        auto* a = (const AlterStatement*)st;
        s("schema", a->schema);
        n("ie", a->ifTableExists);
        s("name", a->name);
        if (a->action) {
          n("at", a->action->type);
          auto* d = (const DropColumnAction*)a->action;
          s("col", d->columnName);
          n("cie", d->ifExists);
        }
        break;
      }
      case kStmtShow: {
        auto* x = (const ShowStatement*)st;
        n("st", x->type);
        s("schema", x->schema);
        s("name", x->name);
        break;
      }
      case kStmtTransaction: n("cmd", ((const TransactionStatement*)st)->command); break;
      default: o += "?";
    }
    exprs("hints", st->hints);
  }
};
static std::string dump(const SQLStatement* st, bool ids = true, bool lens = true) {
  Dump d(ids, lens);
  d.stmt(st);
  return std::move(d.o);
}
static std::string difft(const std::string& want, const std::string& got) {
  size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
  size_t b = i > 40 ? i - 40 : 0;
  return "expected ..." + want.substr(b, 120) + "... but got ..." + got.substr(b, 120) + "...";
}

// What the accessors and stream operators of the library say about a statement; the library's part is inside of a call.
static std::string inspect(const SQLStatement* st, const Op* op, uint64_t budget) {
  Dump d(false, false);
  d.stmt(st);
  std::ostringstream os;
  call_enter(op, budget, false);
  os << st->type() << st->isType(kStmtSelect) << st->is(kStmtInsert) << ' ';
  for (auto* e : d.nodes) {
    os << e->columnType << ',';
    os << e->isLiteral() << e->hasAlias() << e->hasTable() << e->isType(kExprStar) << (e->getName() ? e->getName() : "-") << ' ';
  }
  for (auto* t : d.tables) os << t->hasSchema() << (t->getName() ? t->getName() : "-") << ' ';
  if (st->is(kStmtCreate)) {
    auto* q = (const CreateStatement*)st;
    if (q->columns)
      for (auto* c : *q->columns) {
        os << c->type << (c->type == q->columns->front()->type) << (c->type != q->columns->back()->type) << ' ';
        if (c->column_constraints) {
          std::set<int> k;  // its order is up to the library
          for (auto x : *c->column_constraints) k.insert((int)x);
          for (int x : k) os << (ConstraintType)x << ' ';
        }
      }
    if (q->tableConstraints)
      for (auto* c : *q->tableConstraints) os << c->type << ' ';
  }
  call_leave();
  return os.str();
}

// ---------------------------------------------------------------- packing
struct W {
  std::string o;
  void i(int64_t v) { o.append((char*)&v, 8); }
  void s(const std::string& v) {
    i((int64_t)v.size());
    o += v;
  }
  template <class T>
  void v(const std::vector<T>& x) {
    i((int64_t)x.size());
    for (auto& e : x) i((int64_t)e);
  }
  void vs(const std::vector<std::string>& x) {
    i((int64_t)x.size());
    for (auto& e : x) s(e);
  }
};
struct R {
  const std::string& b;
  size_t p = 0;
  int64_t i() {
    int64_t v = 0;
    if (p + 8 <= b.size()) memcpy(&v, b.data() + p, 8);
    p += 8;
    return v;
  }
  std::string s() {
    size_t n = (size_t)i();
    std::string v = p + n <= b.size() ? b.substr(p, n) : "";
    p += n;
    return v;
  }
  template <class T>
  void v(std::vector<T>& x) {
    int64_t n = i();
    for (int64_t k = 0; k < n && p < b.size(); k++) x.push_back((T)i());
  }
  void vs(std::vector<std::string>& x) {
    int64_t n = i();
    for (int64_t k = 0; k < n && p < b.size(); k++) x.push_back(s());
  }
};
std::string pack(const Baseline& b) {
  W w;
  w.i(b.ret);
  w.i(b.valid);
  w.i(b.haserr);
  w.s(b.err);
  w.i(b.line);
  w.i(b.col);
  w.vs(b.stmts);
  w.vs(b.stmts_np);
  w.vs(b.prints);
  w.vs(b.insp);
  w.v(b.lens);
  w.v(b.nparams);
  w.s(b.params);
  w.i(b.tret);
  w.v(b.tokens);
  w.i((int64_t)b.psteps);
  w.i((int64_t)b.tsteps);
  w.i(b.pallocs);
  w.i(b.tallocs);
  w.v(b.pprof);
  w.v(b.tprof);
  w.v(b.pblk);
  w.v(b.tblk);
  w.v(b.prsteps);
  return std::move(w.o);
}
void unpack(const std::string& s, Baseline& b) {
  R r{s};
  b.ret = r.i();
  b.valid = r.i();
  b.haserr = r.i();
  b.err = r.s();
  b.line = (int)r.i();
  b.col = (int)r.i();
  r.vs(b.stmts);
  r.vs(b.stmts_np);
  r.vs(b.prints);
  r.vs(b.insp);
  r.v(b.lens);
  r.v(b.nparams);
  b.params = r.s();
  b.tret = r.i();
  r.v(b.tokens);
  b.psteps = (uint64_t)r.i();
  b.tsteps = (uint64_t)r.i();
  b.pallocs = (int)r.i();
  b.tallocs = (int)r.i();
  r.v(b.pprof);
  r.v(b.tprof);
  r.v(b.pblk);
  r.v(b.tblk);
  r.v(b.prsteps);
}

// ---------------------------------------------------------------- environment
// 4..6: the same as the global locale of C++, too
const char* const kLocales[] = {"", "de_DE.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "de_DE.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9"};
int kNLocales = 7;
static locale_t g_loc[7];
void locales_init(const std::string& dir) {
  if (!dir.empty()) setenv("LOCPATH", dir.c_str(), 1);
  for (int i = 1; i < kNLocales; i++) g_loc[i] = newlocale(LC_ALL_MASK, kLocales[i], (locale_t)0);
}
bool locale_available(int i) { return i > 0 && i < kNLocales && g_loc[i]; }

uint64_t budget_generous(size_t len) { return 3000000 + 60000ull * len + 60ull * len * len; }
// Parse and tokenize calls: 20 to 60 times what the slowest texts need (805 steps for the empty text, up to 60 per
// byte, five for each pair of placeholders).
uint64_t budget_parse(const std::string& x, size_t stmts, size_t params) {
  uint64_t len = x.size() + stmts, q = params + (uint64_t)std::count(x.begin(), x.end(), '?');
  return 50000 + 2000 * len + 2 * len * len + 100 * q * q;
}

std::string flood_text(const std::string& t, int style, int i) {
  if (style == 1) return std::string((size_t)i / 61, '\n') + std::string((size_t)i % 61, ' ') + t;
  return t + std::to_string(i);
}

// ---------------------------------------------------------------- baseline
static std::string params_desc(SQLParserResult& r) {
  std::string o;
  for (auto* p : r.parameters()) o += p ? "(" + std::to_string(p->ival) + "/" + std::to_string(p->ival2) + ")" : "(null)";
  return o;
}
static std::string print_stmt(const SQLStatement* st, const Op* op, uint64_t budget, bool* threw, uint64_t* steps = nullptr);
static std::vector<uint32_t> visits() {
  std::set<uint32_t> v;
  for (uint32_t i = 0; i < MAXEDGE && i <= core_edges(); i++) {
    if (shm->first[i]) v.insert(shm->first[i]);
    if (shm->last[i]) v.insert(shm->last[i]);
  }
  return std::vector<uint32_t>(v.begin(), v.end());
}

void child_baseline(const std::string& text, bool tokenize) {
  core_child_init();
  set_fill(0);
  Spec s;
  s.prop = "base";
  s.texts.push_back(text);
  s.phases.resize(1);
  s.phases[0].actors.resize(1);
  s.phases[0].actors[0].ops.resize(1);
  Baseline b;
  sched_begin(s);
  sched_phase(s, 0, [&](int, int, const Op&) {
    Op op;
    if (tokenize) {
      std::vector<int16_t> t;
      call_enter(&op, budget_parse(text), true);
      b.tret = SQLParser::tokenize(text, &t);
      CallStats st = call_leave();
      b.tokens = t;
      b.tsteps = st.steps;
      b.tallocs = st.allocs;
      for (uint32_t i = 0; i < shm->nprof; i++) b.tprof.push_back(shm->prof[i]);
      b.tblk = visits();
      return;
    }
    auto r = std::make_unique<SQLParserResult>();
    call_enter(&op, budget_parse(text), true);
    b.ret = SQLParser::parse(text, r.get());
    CallStats st = call_leave();
    b.psteps = st.steps;
    b.pallocs = st.allocs;
    for (uint32_t i = 0; i < shm->nprof; i++) b.pprof.push_back(shm->prof[i]);
    b.pblk = visits();
    b.valid = r->isValid();
    b.haserr = r->errorMsg() != nullptr;
    if (b.haserr) b.err = r->errorMsg();
    b.line = r->errorLine();
    b.col = r->errorColumn();
    bool printable = true;
    for (size_t i = 0; i < r->size(); i++) {
      const SQLStatement* q = r->getStatement(i);
      Dump d(true, true);
      d.stmt(q);
      if (d.depth > kPrintDepth) printable = false;  // indented by its depth, the text would grow with the square
      b.stmts.push_back(d.o);
      b.nparams.push_back((int)d.params.size());
      b.stmts_np.push_back(dump(q, false, false));
      b.lens.push_back((int64_t)q->stringLength);
      b.insp.push_back(inspect(q, &op, budget_generous(text.size())));
    }
    b.params = params_desc(*r);
    if (b.valid && printable)
      for (size_t i = 0; i < r->size(); i++) {
        bool threw = false;
        std::cout.clear();
        uint64_t n = 0;
        b.prints.push_back(print_stmt(r->getStatement(i), &op, budget_generous(text.size()), &threw, &n));
        b.prsteps.push_back(n);
      }
    call_enter(&op, budget_generous(text.size()), false);
    r.reset();
    call_leave();
  });
  sched_end();
  std::string p = pack(b);
  if (p.size() > OUTBUF) violation("simulator:baseline-too-large", "");
  memcpy(shm->out, p.data(), p.size());
  shm->outlen = p.size();
  shm->verdict = 1;
}

static std::string print_stmt(const SQLStatement* st, const Op* op, uint64_t budget, bool* threw, uint64_t* steps) {
  out_begin(op->out, op->outn);
  call_enter(op, budget, false);
  try {
    printStatementInfo(st);
  } catch (...) {
    *threw = true;
  }
  CallStats cs = call_leave();
  if (steps) *steps = cs.steps;
  return out_end();
}

// ---------------------------------------------------------------- model
struct Item {
  int text;      // text the statement came from
  int idx;       // index within it
  bool fresh;    // parsed into an empty result: parameter numbers are those of the baseline
  bool tracked;  // its placeholders must be listed
};
struct SlotM {
  std::vector<Item> items;
  int valid = 0;      // -1 unknown
  bool pristine = true;
  int errtext = -2;   // -2 unknown, -1 none (pristine), >=0: error details of that text
  bool dirty = false; // contents unknown after an injected failure
};
struct Bag {
  std::vector<SQLStatement*> st;
  std::vector<Item> m;
  std::vector<int> from;  // actor that parsed/released it
};

// A result on the heap, or (place) one after the other at the same address, as local variables of a caller are.
struct Unmake {
  bool placed = false;
  void operator()(SQLParserResult* p) const {
    if (placed)
      p->~SQLParserResult();
    else
      delete p;
  }
};

struct World {
  const Spec& s;
  struct Room {
    alignas(16) unsigned char b[sizeof(SQLParserResult)];
  };
  std::vector<Room> rooms;
  std::vector<std::string> bufs;
  std::vector<std::unique_ptr<SQLParserResult, Unmake>> slot;
  template <class... A>
  void make(int k, A&&... a) {
    slot[k].reset();
    if (s.place) {
      memset(rooms[k].b, 0xa5, sizeof rooms[k].b);
      slot[k] = std::unique_ptr<SQLParserResult, Unmake>(new (rooms[k].b) SQLParserResult(std::forward<A>(a)...), Unmake{true});
    } else
      slot[k] = std::unique_ptr<SQLParserResult, Unmake>(new SQLParserResult(std::forward<A>(a)...), Unmake{false});
  }
  std::vector<SlotM> m;
  std::vector<Bag> bag;
  std::vector<std::pair<const char*, std::string>> held;  // error messages as read before
  int fresh_line = 0, fresh_col = 0;
  std::vector<const Baseline*> base;
  std::vector<int> lastactor;
  explicit World(const Spec& s) : s(s) {}
  const Baseline& B(int t) const { return *base[t]; }
  bool ck(int f) const { return s.checks & f; }

  std::string T(int t) const {
    std::string e = esc(s.texts[t]);
    return "text " + std::to_string(t) + " " + (e.size() > 300 ? e.substr(0, 300) + "..." : e);
  }

  // ---- comparison of a slot with the model
  void check_items(int k, const std::string& when) {
    SQLParserResult& r = *slot[k];
    SlotM& q = m[k];
    if (q.dirty) return;
    if (r.size() != q.items.size() || r.getStatements().size() != q.items.size())
      violation("model:size", when + ": result " + std::to_string(k) + " holds " + std::to_string(r.size()) + " statements, expected " + std::to_string(q.items.size()));
    for (size_t i = 0; i < q.items.size(); i++) check_item(r.getStatement(i), q.items[i], when + ": result " + std::to_string(k) + " statement " + std::to_string(i));
  }
  void check_item(const SQLStatement* st, const Item& it, const std::string& when) {
    const Baseline& b = B(it.text);
    std::string got = it.fresh ? dump(st) : dump(st, false, false);
    const std::string& want = it.fresh ? b.stmts[it.idx] : b.stmts_np[it.idx];
    if (got != want) violation("model:statement", when + " of " + T(it.text) + ": " + difft(want, got));
  }
  void check_state(int k, const std::string& when) {
    SQLParserResult& r = *slot[k];
    SlotM& q = m[k];
    if (q.valid >= 0 && r.isValid() != (q.valid == 1))
      violation("model:valid", when + ": result " + std::to_string(k) + " isValid()=" + std::to_string(r.isValid()) + ", expected " + std::to_string(q.valid));
    if (q.errtext == -1) {
      if (r.errorMsg()) violation("model:error", when + ": result " + std::to_string(k) + " has the error \"" + r.errorMsg() + "\", expected none");
      if (r.errorLine() != fresh_line || r.errorColumn() != fresh_col)
        violation("model:error", when + ": result " + std::to_string(k) + " has error position " + std::to_string(r.errorLine()) + ":" + std::to_string(r.errorColumn()) +
                                     ", a new result has " + std::to_string(fresh_line) + ":" + std::to_string(fresh_col));
    } else if (q.errtext >= 0) {
      const Baseline& b = B(q.errtext);
      if (!r.errorMsg() || b.err != r.errorMsg() || b.line != r.errorLine() || b.col != r.errorColumn())
        violation("model:error", when + ": result " + std::to_string(k) + " has error \"" + (r.errorMsg() ? r.errorMsg() : "(null)") + "\" at " + std::to_string(r.errorLine()) + ":" +
                                     std::to_string(r.errorColumn()) + ", expected \"" + b.err + "\" at " + std::to_string(b.line) + ":" + std::to_string(b.col));
    }
  }
  void check_params(int k, const std::string& when) {
    SQLParserResult& r = *slot[k];
    SlotM& q = m[k];
    if (q.dirty) return;
    if (r.size() != q.items.size()) return;
    std::set<const Expr*> must, may;
    for (size_t i = 0; i < q.items.size(); i++) {
      Dump d(true, true);
      d.stmt(r.getStatement(i));
      for (auto* p : d.params) {
        (q.items[i].tracked ? must : may).insert(p);
        may.insert(p);
      }
    }
    std::set<const Expr*> seen;
    size_t i = 0;
    const Expr* before = nullptr;
    for (auto* p : r.parameters()) {
      std::string w = when + ": parameter " + std::to_string(i) + " of result " + std::to_string(k);
      if (!p) violation("params:null", w + " is null");
      if (!may.count(p)) violation("params:foreign", w + " does not belong to a statement the result holds");
      if (!seen.insert(p).second) violation("params:duplicate", w + " is listed twice");
      if (p->type != kExprParameter) violation("params:type", w + " is no placeholder");
      if (before && before->ival > p->ival) violation("params:order", w + " has number " + std::to_string(p->ival) + " and comes behind number " + std::to_string(before->ival));
      before = p;
      i++;
    }
    for (auto* p : must)
      if (!seen.count(p)) violation("params:missing", when + ": a placeholder of a statement in result " + std::to_string(k) + " is not listed (" + std::to_string(seen.size()) + " listed)");
  }
  void check_slot(int k, const std::string& when) {
    if (ck(CK_MODEL)) {
      check_items(k, when);
      check_state(k, when);
    }
    if (ck(CK_PARAMS)) check_params(k, when);
  }
  void check_outcome(int k, int t, bool ret, const std::string& when) {  // fresh slot
    SQLParserResult& r = *slot[k];
    const Baseline& b = B(t);
    std::string w = when + " of " + T(t);
    if (ret != b.ret) violation("outcome:return", w + ": returned " + std::to_string(ret) + ", alone it returns " + std::to_string(b.ret));
    if (r.isValid() != b.valid) violation("outcome:verdict", w + ": isValid()=" + std::to_string(r.isValid()) + ", alone it is " + std::to_string(b.valid) + (r.errorMsg() ? std::string(" error: ") + r.errorMsg() : ""));
    if (r.size() != b.stmts.size()) violation("outcome:size", w + ": " + std::to_string(r.size()) + " statements, alone " + std::to_string(b.stmts.size()));
    for (size_t i = 0; i < b.stmts.size(); i++) {
      std::string d = dump(r.getStatement(i));
      if (d != b.stmts[i]) violation("outcome:statement", w + ": statement " + std::to_string(i) + ": " + difft(b.stmts[i], d));
    }
    bool he = r.errorMsg() != nullptr;
    if (he != b.haserr || (he && b.err != r.errorMsg())) violation("outcome:message", w + ": error message \"" + (he ? r.errorMsg() : "(null)") + "\", alone \"" + (b.haserr ? b.err : "(null)") + "\"");
    if (!b.valid && (r.errorLine() != b.line || r.errorColumn() != b.col))
      violation("outcome:position", w + ": error position " + std::to_string(r.errorLine()) + ":" + std::to_string(r.errorColumn()) + ", alone " + std::to_string(b.line) + ":" + std::to_string(b.col));
    std::string p = params_desc(r);
    if (p != b.params) violation("outcome:parameters", w + ": parameters " + p + ", alone " + b.params);
  }
  void check_reject(int t, const std::string& when, SQLParserResult& r) {
    const std::string& x = s.texts[t];
    const char* e = r.errorMsg();
    if (!e) violation("reject:message", when + " of " + T(t) + ": rejected without an error message");
    if (!*e) violation("reject:message", when + " of " + T(t) + ": rejected with an empty error message");
    std::vector<size_t> len(1, 0);
    for (char c : x)
      if (c == '\n')
        len.push_back(0);
      else
        len.back()++;
    int l = r.errorLine(), c = r.errorColumn();
    if (l < 0 || l >= (int)len.size() || c < 0 || c > (int)len[l])
      violation("reject:position", when + " of " + T(t) + ": error position " + std::to_string(l) + ":" + std::to_string(c) + " is outside of the text (" + std::to_string(len.size()) + " lines" +
                                       (l >= 0 && l < (int)len.size() ? ", line has " + std::to_string(len[l]) + " characters" : "") + ")");
  }

  // ---- further library calls made by oracles
  struct Got {
    bool ret = false, valid = false;
    std::vector<std::string> np, marks;
    std::vector<int64_t> lens;
    std::string err;
  };
  Got quiet_parse(const std::string& x, bool marks = false) {
    Got g;
    auto r = std::make_unique<SQLParserResult>();
    Op op;
    call_enter(&op, budget_parse(x), false);
    g.ret = SQLParser::parse(x, r.get());
    call_leave();
    fired(F_PROBE);
    g.valid = g.ret && r->isValid();
    if (r->errorMsg()) g.err = r->errorMsg();
    if (g.valid)
      for (size_t i = 0; i < r->size(); i++) {
        g.np.push_back(dump(r->getStatement(i), false, false));
        g.lens.push_back((int64_t)r->getStatement(i)->stringLength);
        if (marks) {
          Dump d(true, false, true);
          d.stmt(r->getStatement(i));
          g.marks.push_back(d.o);
        }
      }
    call_enter(&op, budget_generous(x.size()), false);
    r.reset();
    call_leave();
    return g;
  }
  void oracle_damage(int t, const std::string& when, bool accepted, SQLParserResult* r) {
    const std::string& x = s.texts[t];
    Scan sc = scan(x);
    if (!accepted) return;
    if (sc.bad) violation("damage:accepted", when + ": accepted although it contains " + sc.why + " at byte " + std::to_string(sc.badpos) + ": " + T(t));
    if (!sc.balanced && !sc.unsure) violation("damage:accepted", when + ": accepted although its brackets do not match: " + T(t));
    if (sc.unsure) return;
    // every name the generator made up must have arrived
    std::string all;
    for (size_t i = 0; i < r->size(); i++) all += dump(r->getStatement(i), false, false) + "\n";
    size_t q = 0;
    for (auto& k : sc.toks) {
      std::string v = x.substr(k.b, k.e - k.b);
      if (k.kind == T_WORD && v.size() >= 3 && v.back() == 'x' && v[1] >= '0' && v[1] <= '9') {
        if (all.find("\"" + v + "\"") == std::string::npos) violation("damage:lost-name", when + ": accepted, but the name " + v + " at byte " + std::to_string(k.b) + " is in no statement: " + T(t));
      }
      if (k.kind == T_OP && v == "?") q++;
    }
    if (r->parameters().size() != q && m_fresh_params) violation("damage:lost-parameter", when + ": accepted, but " + std::to_string(q) + " placeholders became " + std::to_string(r->parameters().size()) + ": " + T(t));
    if (!sc.comments.empty()) {
      std::string y = strip_comments(x, sc);
      Got a = quiet_parse(x), b = quiet_parse(y);
      if (!b.valid) violation("damage:comment", when + ": accepted, but rejected without its comments (" + b.err + "): " + T(t));
      if (a.np != b.np) violation("damage:comment", when + ": comments changed what was accepted: " + T(t) + ": " + (a.np.size() == b.np.size() && !a.np.empty() ? difft(b.np[0], a.np[0]) : "number of statements"));
    }
    // a sentinel that no accepted text can end with must not be ignored
    static const char* sent[] = {"\n)", " )", "\n;)", "\n'"};
    for (auto e : sent) {
      if (e[0] == ' ' && !sc.comments.empty() && sc.comments.back().second >= x.size()) continue;  // would extend the comment
      Got g = quiet_parse(x + e);
      if (g.valid) violation("damage:tail-ignored", when + ": still accepted with " + esc(e) + " appended: " + T(t));
    }
    if (!sc.toks.empty()) {
      size_t h = fnv(x) % sc.toks.size();
      for (int j = 0; j < 3; j++) {
        auto& k = sc.toks[(h + j * 7) % sc.toks.size()];
        std::string y = x.substr(0, k.b) + " ) " + x.substr(k.b);
        Got g = quiet_parse(y);
        if (g.valid) violation("damage:part-ignored", when + ": still accepted with an unmatched parenthesis inserted at byte " + std::to_string(k.b) + ": " + T(t));
        if (k.b != k.e) {
          std::string z = x.substr(0, k.b) + " # " + x.substr(k.b);
          g = quiet_parse(z);
          if (g.valid) violation("damage:part-ignored", when + ": still accepted with an unknown character inserted at byte " + std::to_string(k.b) + ": " + T(t));
        }
      }
    }
  }
  bool m_fresh_params = true;
  void oracle_tile(int t, const std::string& when, SQLParserResult& r) {
    const std::string& x = s.texts[t];
    Scan whole = scan(x);
    if (whole.bad) return;  // C04's business
    size_t p = 0;
    for (size_t i = 0; i < r.size(); i++) {
      int64_t l = (int64_t)r.getStatement(i)->stringLength;
      if (l <= 0 || p + l > x.size())
        violation("slice:length", when + ": statement " + std::to_string(i) + " has length " + std::to_string(l) + " at byte " + std::to_string(p) + " of " + std::to_string(x.size()) + ": " + T(t));
      std::string piece = x.substr(p, l);
      Got g = quiet_parse(piece);
      if (!g.valid) violation("slice:rejected", when + ": the piece " + esc(piece) + " of statement " + std::to_string(i) + " is rejected on its own (" + g.err + "): " + T(t));
      if (g.np.size() != 1) violation("slice:count", when + ": the piece " + esc(piece) + " of statement " + std::to_string(i) + " has " + std::to_string(g.np.size()) + " statements on its own: " + T(t));
      std::string d = dump(r.getStatement(i), false, false);
      if (g.np[0] != d) violation("slice:statement", when + ": the piece of statement " + std::to_string(i) + " of " + T(t) + " differs: " + difft(d, g.np[0]));
      p += l;
    }
    if (!scan(x.substr(p)).only_blank) violation("slice:leftover", when + ": left over after the last statement: " + esc(x.substr(p)) + " of " + T(t));
  }
  void oracle_param_order(int t, const std::string& when, SQLParserResult& r) {
    const std::string& x = s.texts[t];
    Scan sc = scan(x);
    if (sc.bad || sc.unsure) return;
    std::string y;
    size_t p = 0;
    int k = 0;
    for (auto& q : sc.toks)
      if (q.kind == T_OP && x[q.b] == '?') {
        y += x.substr(p, q.b - p) + " " + std::to_string(900000000 + k++) + " ";
        p = q.e;
      }
    y += x.substr(p);
    if (!k) return;
    Got g = quiet_parse(y, true);
    if (!g.valid || g.marks.size() != r.size()) return;  // a placeholder in a place where no literal may be
    for (size_t i = 0; i < r.size(); i++) {
      Dump d(true, false, true);
      d.stmt(r.getStatement(i));
      if (d.o != g.marks[i]) violation("params:order", when + ": placeholders are not numbered in the order of the text: statement " + std::to_string(i) + " of " + T(t) + ": " + difft(g.marks[i], d.o));
    }
    size_t n = 0;
    for (auto* e : r.parameters()) {
      if (e->ival != (int64_t)n) violation("params:order", when + ": parameter " + std::to_string(n) + " has number " + std::to_string(e->ival) + ": " + T(t));
      n++;
    }
  }

  // ---- operations
  void host_locale() {
    if (!locale_available(s.locale)) return;
    if (s.locale > 3) std::locale::global(std::locale(kLocales[s.locale]));
    setlocale(LC_ALL, kLocales[s.locale]);
    fired(F_LOCALE);
  }
  // What the calls may not touch: as it was before the call, and, for other threads, at any moment.
  HostState seen;                       // at the start
  std::map<int, HostState> hosts;       // before the call of each actor
  std::map<int, std::pair<const std::string*, int>> flight;  // texts of calls in progress
  std::vector<uint64_t> hashes;
  bool single = true;  // one actor
  int host_what() const { return HOST_SHARED | HOST_OWN | (single ? HOST_REST | HOST_TASKS : 0); }
  void host_before() {
    host_habits_thread(s.host);
    hosts[cur_actor()] = host_state(host_what());
  }
  [[noreturn]] void host_violation(std::string what, const std::string& when) {
    std::string c = what;
    for (auto& x : c)
      if (x == ' ') x = '-';
    violation("host:" + c, when + ": " + what + " has changed");
  }
  void host_after(const Op& op) {
    const HostState& b = hosts[cur_actor()];
    std::string d = host_diff(b, host_state(host_what()));
    if (d == "the number of threads") {  // a thread that has been joined may still be listed
      usleep(50000);
      d = host_diff(b, host_state(host_what()));
    }
    if (!d.empty()) host_violation(d, std::string("after ") + kOpName[op.kind] + (op.kind == OP_PARSE || op.kind == OP_TOKENIZE ? " of " + T(op.text) : ""));
  }
  void do_look(const Op& op) {
    for (int i = 0; i < op.arg; i++) {
      std::string d = host_diff(seen, host_state(HOST_SHARED));
      if (!d.empty()) host_violation(d, "seen by another thread while calls are in progress");
      for (auto& f : flight)
        if (f.second.first && (fnv(*f.second.first) != hashes[(size_t)f.second.second] || f.second.first->c_str()[f.second.first->size()]))
          violation("input:changed", "seen by another thread while the call is in progress: it changed the text it was given: " + T(f.second.second));
      fired(F_LOOK);
      actor_yield();
    }
  }
  struct Flight {
    World& w;
    int a;
    Flight(World& w, int a, const std::string& in, int t) : w(w), a(a) {
      w.flight[a] = {&in, t};
      if (w.ck(CK_HOST)) out_begin(0, 0);
    }
    ~Flight() { w.flight[a] = {nullptr, 0}; }
    void said() {
      if (w.ck(CK_HOST) && !out_end().empty()) w.host_violation("standard output", "after a call");
    }
  };
  void env_before(const Op& op) {
    if (op.stack) {
      stack_scribble(op.stack);
      fired(F_STACK);
    }
    if (op.locale && locale_available(op.locale)) {
      if (op.locale > 3) std::locale::global(std::locale(kLocales[op.locale]));  // sets the C locale as well
      setlocale(LC_ALL, kLocales[op.locale]);
      fired(F_LOCALE);
    }
    if (op.sink == SINK_FD_CLOSED || op.sink == SINK_FD_FULL || op.sink == SINK_FD_PIPE || op.sink == SINK_NULLBUF) real_fd(op.sink);
    if (op.sink && op.out == OUT_EXC && std::cerr.good()) std::cerr.exceptions(std::ios::badbit | std::ios::failbit);  // the host's choice
    if (ck(CK_HOST)) host_before();
    if (op.err >= 0) {
      fired(F_ERRNO);
      errno = op.err;
    }
  }
  FILE* saved_err = nullptr;
  int saved_fd = -1;
  FILE* mine = nullptr;
  void real_fd(int mode) {  // a real stdio stream on a real descriptor in that state
    saved_err = stderr;
    fired(F_SINK);
    fired(F_SINK0 + mode);
    if (mode == SINK_FD_CLOSED) {
      int fd = open("/dev/null", O_WRONLY);
      mine = fdopen(fd, "w");
      setvbuf(mine, nullptr, _IONBF, 0);
      close(fd);
    } else if (mode == SINK_FD_FULL) {
      mine = fopen("/dev/full", "w");
      setvbuf(mine, nullptr, _IONBF, 0);
    } else if (mode == SINK_FD_PIPE) {
      int p[2];
      if (pipe(p)) violation("simulator:pipe", "");
      close(p[0]);
      mine = fdopen(p[1], "w");
      setvbuf(mine, nullptr, _IONBF, 0);
    } else {
      mine = fopen("/dev/full", "w");
      setvbuf(mine, nullptr, _IOFBF, 16);
    }
    stderr = mine;
  }
  void env_after(const Op& op) {
    if (ck(CK_HOST)) host_after(op);
    std::cerr.exceptions(std::ios::goodbit);
    if (mine) {
      stderr = saved_err;
      fclose(mine);
      mine = nullptr;
    }
    if (op.locale && locale_available(op.locale)) {
      if (op.locale > 3) std::locale::global(std::locale::classic());
      setlocale(LC_ALL, "C");
      host_locale();
    }
  }
  // The caller's text. It may go away or change as soon as the call is over.
  struct Delivery {
    std::string own;
    std::string* y = nullptr;
    const std::string& text;
    Delivery(World& w, int actor, const Op& op, const std::string& x) : text(x) {
      if (op.buf == 0) return;
      y = &own;
      if (op.buf == 1) {
        y = &w.bufs[(size_t)actor % w.bufs.size()];
        if (y->capacity() < x.size() + 64) y->reserve(std::max<size_t>(4096, 2 * x.size() + 64));
      } else if (op.buf == 2)
        y->reserve(x.size() + 40);
      y->assign(x);
    }
    const std::string& get() const { return y ? *y : text; }
    ~Delivery() {
      if (y)
        for (auto& c : *y) c = 'Z';
    }
  };

  void do_parse(int actor, const Op& op) {
    int k = op.slot, t = op.text;
    const std::string& x = s.texts[t];
    SQLParserResult* r = slot[k].get();
    SlotM& q = m[k];
    bool was_pristine = q.pristine;
    size_t before = r->size();
    bool was_empty = before == 0 && (op.blind || r->parameters().empty());
    std::vector<const SQLStatement*> old(r->getStatements().begin(), r->getStatements().end());
    std::vector<Expr*> oldp;
    size_t holds = 0;  // placeholders
    if (op.blind)
      for (auto& i : q.items) holds += (size_t)std::count(s.texts[i.text].begin(), s.texts[i.text].end(), '?');
    else
      oldp = r->parameters(), holds = oldp.size();
    if (!was_pristine) fired(F_REUSED);
    bool ret = false, threw = false;
    std::string other;
    Delivery mail(*this, actor, op, x);
    const std::string& in = mail.get();
    Flight fl(*this, actor, in, t);
    env_before(op);
    call_enter(&op, budget_parse(x, before, holds), false);
    try {
      if (op.api == 0)
        ret = SQLParser::parse(in, r);
      else if (op.api == 1)
        ret = SQLParser::parseSQLString(in, r);
      else
        ret = SQLParser::parseSQLString(in.c_str(), r);
    } catch (const std::bad_alloc&) {
      threw = true;
    } catch (const std::exception& e) {
      threw = true;
      Pause p;
      other = e.what();
    } catch (...) {
      threw = true;
      other = "unknown";
    }
    CallStats st = call_leave();
    env_after(op);
    fl.said();
    if (in != x) violation("input:changed", "parse changed the text it was given: " + T(t));
    lastactor[k] = actor;
    std::string when = "parse";
    bool failed_alloc = st.alloc_failed > 0;
    logev("parse", fnv(s.texts[t]), (uint64_t)((ret ? 1 : 0) + (threw ? 2 : 0) + (r->isValid() ? 4 : 0)), r->size());
    if (!other.empty()) violation("crash:exception", "parse of " + T(t) + " threw " + other);
    if (threw && !failed_alloc) violation("crash:exception", "parse of " + T(t) + " threw std::bad_alloc although no allocation failed");
    bool success = !threw && ret && r->isValid();
    if (threw) fired(F_OOM_THROW);
    if (failed_alloc && !threw && !ret) fired(F_OOM_FALSE);
    if (failed_alloc && !threw && ret && !r->isValid()) fired(F_OOM_INVALID);
    if (failed_alloc && success) fired(F_OOM_EXACT);
    if (!failed_alloc) fired(success ? F_ACCEPTED : F_REJECTED);
    q.pristine = false;
    const Baseline* b = base[t] && base[t]->done ? base[t] : nullptr;

    if (success) {
      if (b && (ck(CK_OOM) || ck(CK_OUTCOME) || ck(CK_MODEL))) {
        if (!b->valid) violation(failed_alloc ? "oom:wrong-success" : "outcome:verdict", "parse of " + T(t) + " was accepted, alone it is rejected (" + b->err + ")");
        if (was_pristine) {
          if (!op.blind && (ck(CK_OUTCOME) || ck(CK_OOM)))
            check_outcome(k, t, ret, failed_alloc ? "parse under allocation failure" : "parse");
        } else {
          if (r->size() != before + b->stmts.size()) violation("model:size", "parse of " + T(t) + " added " + std::to_string((long)r->size() - (long)before) + " statements, expected " + std::to_string(b->stmts.size()));
        }
      }
      for (size_t i = 0; b && i < b->stmts.size(); i++) q.items.push_back(Item{t, (int)i, was_empty, true});
      q.valid = 1;
      q.errtext = was_pristine ? -1 : -2;
      if (!b) {
        q.dirty = true;
      }
    } else {
      if (b && !failed_alloc) {
        if (ck(CK_OUTCOME) && was_pristine && !op.blind) check_outcome(k, t, ret, "parse");
        if (ck(CK_MODEL) && b->valid) violation("outcome:verdict", "parse of " + T(t) + " was rejected (" + (r->errorMsg() ? r->errorMsg() : "(null)") + "), alone it is accepted");
      }
      q.valid = failed_alloc ? -1 : 0;
      q.errtext = failed_alloc || !b ? -2 : t;
      if (ck(CK_REJECT)) {
        std::string w = std::string(failed_alloc ? "parse failing for lack of memory" : "rejected parse") + " of " + T(t);
        if (r->size() != before) violation("reject:statements", w + ": the result holds " + std::to_string(r->size()) + " statements, before the call " + std::to_string(before));
        for (size_t i = 0; i < before; i++)
          if (r->getStatement(i) != old[i]) violation("reject:statements", w + ": statement " + std::to_string(i) + " was replaced");
        if (!op.blind && r->parameters() != oldp) violation("reject:parameters", w + ": the parameter list changed from " + std::to_string(oldp.size()) + " to " + std::to_string(r->parameters().size()) + " entries");
        if (!failed_alloc && !op.blind) check_reject(t, "parse", *r);
        if (r->isValid() && !threw && !failed_alloc) violation("reject:valid", w + ": isValid() is true");
      } else if (r->size() != before)
        q.dirty = true;
    }
    if (ck(CK_STEPS) && b && !failed_alloc && was_pristine) check_steps(st.steps, b->psteps, x.size(), "parse of " + T(t));
    if (op.blind) return;
    if (s.oracle == 4 && was_pristine) oracle_damage(t, "parse", success, r);
    if (s.oracle == 12 && success && was_pristine) oracle_tile(t, "parse", *r);
    if (s.oracle == 12 && was_pristine && t == 0 && !s.oargs.empty()) oracle_batch(success, *r);
    if (s.oracle == 10 && success && was_pristine) oracle_param_order(t, "parse", *r);
    check_slot(k, "after parse of " + T(t));
  }
  // C12: text 0 is the batch of the statements whose own texts are oargs
  void oracle_batch(bool success, SQLParserResult& r) {
    std::vector<std::string> want;
    bool all = true;
    for (auto i : s.oargs) {
      const Baseline& b = B((int)i);
      if (!b.valid) all = false;
      for (auto& x : b.stmts_np) want.push_back(x);
    }
    if (!all) {
      if (success) violation("batch:accepted", "a batch is accepted although one of its statements is rejected on its own: " + T(0));
      return;
    }
    if (!success) violation("batch:rejected", "a batch of accepted statements is rejected (" + std::string(r.errorMsg() ? r.errorMsg() : "(null)") + "): " + T(0));
    if (r.size() != want.size()) violation("batch:count", "a batch of " + std::to_string(want.size()) + " statements yields " + std::to_string(r.size()) + ": " + T(0));
    for (size_t i = 0; i < want.size(); i++) {
      std::string d = dump(r.getStatement(i), false, false);
      if (d != want[i]) violation("batch:statement", "statement " + std::to_string(i) + " of the batch " + T(0) + ": " + difft(want[i], d));
    }
  }
  void check_steps(uint64_t got, uint64_t alone, size_t len, const std::string& what) {
    // No earlier call may make a later one run longer: slack for lazily initialised state.
    if (got > alone + alone / 4 + 4000 + 4 * len)
      violation("steps:history", what + ": took " + std::to_string(got) + " steps, alone " + std::to_string(alone));
  }

  void do_tokenize(int actor, const Op& op) {
    int t = op.text;
    const std::string& x = s.texts[t];
    std::vector<int16_t> v;
    bool ret = false, threw = false;
    std::string other;
    Delivery mail(*this, actor, op, x);
    const std::string& in = mail.get();
    Flight fl(*this, actor, in, t);
    env_before(op);
    call_enter(&op, budget_parse(x), false);
    try {
      ret = SQLParser::tokenize(in, &v);
    } catch (const std::bad_alloc&) {
      threw = true;
    } catch (const std::exception& e) {
      threw = true;
      Pause p;
      other = e.what();
    } catch (...) {
      threw = true;
      other = "unknown";
    }
    CallStats st = call_leave();
    env_after(op);
    fl.said();
    if (in != x) violation("input:changed", "tokenize changed the text it was given: " + T(t));
    bool fa = st.alloc_failed > 0;
    logev("tokenize", fnv(s.texts[t]), (uint64_t)((ret ? 1 : 0) + (threw ? 2 : 0)), v.size());
    if (!other.empty()) violation("crash:exception", "tokenize of " + T(t) + " threw " + other);
    if (threw && !fa) violation("crash:exception", "tokenize of " + T(t) + " threw std::bad_alloc although no allocation failed");
    if (threw) fired(F_OOM_THROW);
    else if (fa && !ret) fired(F_OOM_FALSE);
    else if (fa) fired(F_OOM_EXACT);
    const Baseline* b = base[t];
    if (b && b->tdone && (ck(CK_OUTCOME) || ck(CK_OOM) || ck(CK_TOKENS))) {
      if (threw || (fa && !ret)) {
      } else if (ret != b->tret || v != b->tokens) {
        size_t i = 0;
        while (i < v.size() && i < b->tokens.size() && v[i] == b->tokens[i]) i++;
        violation(fa ? "oom:tokens" : "outcome:tokens", "tokenize of " + T(t) + ": returned " + std::to_string(ret) + " with " + std::to_string(v.size()) + " tokens, alone " + std::to_string(b->tret) + " with " +
                                                            std::to_string(b->tokens.size()) + "; they differ at " + std::to_string(i));
      }
    }
    if (ck(CK_STEPS) && b && b->tdone && !fa) check_steps(st.steps, b->tsteps, x.size(), "tokenize of " + T(t));
    if (s.oracle == 4 && ret && !fa) {
      // the tokens of the reference scanner, each once
      Scan sc = scan(x);
      size_t n = sc.toks.size(), merged = 0;
      for (size_t i = 0; i + 1 < sc.toks.size(); i++) {
        std::string a = x.substr(sc.toks[i].b, sc.toks[i].e - sc.toks[i].b);
        for (auto& c : a) c = (char)tolower((unsigned char)c);
        if (a == "current" || a == "character") merged++;
        if (a == "-" && x.compare(sc.toks[i + 1].b, 19, "9223372036854775808") == 0) merged++;
      }
      if (sc.bad) {
        // what precedes the damage is not all there is
        size_t pre = 0, post = 0;
        for (auto& k : sc.toks) (k.b < sc.badpos ? pre : post)++;
        bool rest = sc.why == "unknown character" || sc.why == "integer out of range";
        if (rest && v.size() + merged < pre + (post > 1 ? 1 : 0) + 1) violation("damage:tokens", "tokenize reports success for the part before " + sc.why + " at byte " + std::to_string(sc.badpos) + " only: " + T(t));
      } else if (!sc.unsure) {
        if (v.size() + merged < n || v.size() > n) violation("damage:tokens", "tokenize yields " + std::to_string(v.size()) + " tokens, the text has " + std::to_string(n) + ": " + T(t));
      }
    }
  }
  // Many different texts, none of them compared: what counts is what they leave behind.
  void do_flood(int actor, const Op& op) {
    int k = op.slot;
    uint64_t accepted = 0, failed = 0;
    env_before(op);
    for (int i = 0; i < op.arg; i++) {
      std::string x = flood_text(s.texts[op.text], op.api, i);
      std::vector<int16_t> v;
      bool ret = false, threw = false;
      call_enter(&op, budget_parse(x), false);
      try {
        if (op.api == 2)
          ret = SQLParser::tokenize(x, &v);
        else
          ret = SQLParser::parse(x, slot[k].get()) && slot[k]->isValid();
      } catch (const std::bad_alloc&) {
        threw = true;
      } catch (...) {
        violation("crash:exception", "call " + std::to_string(i) + " of a flood of " + T(op.text) + " threw an exception");
      }
      CallStats st = call_leave();
      if (threw && !st.alloc_failed) violation("crash:exception", "call " + std::to_string(i) + " of a flood of " + T(op.text) + " threw std::bad_alloc although no allocation failed");
      accepted += ret && !threw;
      failed += st.alloc_failed > 0;
      fired(st.alloc_failed ? threw ? F_OOM_THROW : F_OOM_FALSE : ret ? F_ACCEPTED : F_REJECTED);
      call_enter(&op, budget_generous(x.size()), false);
      slot[k]->reset();
      call_leave();
    }
    env_after(op);
    lastactor[k] = actor;
    clear_model(k);
    logev("flood", accepted, failed);
    if (!op.blind) check_slot(k, "after reset");
  }
  // Messages read from other results stay what they were.
  void check_held(const Op& op) {
    if (!ck(CK_MODEL)) return;
    for (auto& p : s.phases)
      if (p.actors.size() > 1) return;
    for (int j = 0; j < s.nslots; j++) {
      bool touched = j == op.slot || ((op.kind == OP_MOVEC || op.kind == OP_MOVEA) && j == op.slot2);
      if (!touched) continue;
      held[j].first = op.blind ? nullptr : slot[j]->errorMsg();
      if (held[j].first) held[j].second = held[j].first;
    }
    for (int j = 0; j < s.nslots; j++)
      if (held[j].first && held[j].second != held[j].first)
        violation("model:message-changed", std::string("after ") + kOpName[op.kind] + " of result " + std::to_string(op.slot) + " the error message \"" + held[j].second + "\" read from result " + std::to_string(j) + " before has become \"" +
                                               std::string(held[j].first).substr(0, 200) + "\"");
  }
  void lib(const Op& op, const std::function<void()>& f, size_t n = 20000) {
    env_before(op);
    call_enter(&op, budget_generous(n), false);
    f();
    call_leave();
    env_after(op);
  }
  void clear_model(int k) {
    m[k] = SlotM();
    m[k].valid = 0;
    m[k].errtext = -1;
  }
  size_t textlen() const {
    size_t n = 0;
    for (auto& t : s.texts) n += t.size();
    return n;
  }

  void exec(int actor, int, const Op& op) {
    int k = op.slot, k2 = op.slot2;
    size_t tl = textlen();
    auto look = [&](int slot, const char* when) {
      if (!op.blind) check_slot(slot, when);
    };
    switch (op.kind) {
      case OP_PARSE: do_parse(actor, op); break;
      case OP_TOKENIZE: do_tokenize(actor, op); break;
      case OP_RESET:
        lib(op, [&] { slot[k]->reset(); }, tl);
        clear_model(k);
        logev("reset", k);
        look(k, "after reset");
        break;
      case OP_NEW:
        if (lastactor[k] >= 0 && lastactor[k] != actor) fired(F_HANDOFF);
        lib(op, [&] { make(k); }, tl);
        clear_model(k);
        logev("new", k);
        look(k, "after construction");
        break;
      case OP_MOVEC:
        if (k == k2) break;
        lib(op, [&] {
          make(k, std::move(*slot[k2]));
        }, tl);
        m[k] = m[k2];
        clear_model(k2);
        logev("movec", k, k2);
        look(k, "after move construction");
        look(k2, "moved-from result after move construction");
        break;
      case OP_MOVEA:
        if (k == k2) {
          SlotM keep = m[k];
          SQLParserResult* p = slot[k].get();
          lib(op, [&] { *slot[k] = std::move(*p); }, tl);
          // self-move leaves a valid but unspecified object: it must be resettable
          lib(op, [&] { slot[k]->reset(); }, tl);
          clear_model(k);
          look(k, "after self-move and reset");
          break;
        }
        lib(op, [&] { *slot[k] = std::move(*slot[k2]); }, tl);
        m[k] = m[k2];
        clear_model(k2);
        logev("movea", k, k2);
        look(k, "after move assignment");
        look(k2, "moved-from result after move assignment");
        break;
      case OP_RELEASE: {
        std::vector<SQLStatement*> v;
        lib(op, [&] { v = slot[k]->releaseStatements(); }, tl);
        Bag& b = bag[op.bag];
        if (ck(CK_MODEL) && !m[k].dirty && v.size() != m[k].items.size()) violation("model:release", "releaseStatements returned " + std::to_string(v.size()) + " statements, expected " + std::to_string(m[k].items.size()));
        if (m[k].dirty) {
          for (auto* p : v) delete p;
        } else
          for (size_t i = 0; i < v.size(); i++) {
            b.st.push_back(v[i]);
            b.m.push_back(m[k].items[i]);
            b.from.push_back(lastactor[k]);
          }
        m[k].items.clear();
        m[k].pristine = false;
        if (m[k].errtext == -1) m[k].errtext = -2;
        logev("release", k, v.size());
        look(k, "after release");
        break;
      }
      case OP_ADD: {
        Bag& b = bag[op.bag];
        if (b.st.empty()) break;
        size_t i = (size_t)op.arg % b.st.size();
        if (b.from[i] != actor) fired(F_HANDOFF);
        SQLStatement* p = b.st[i];
        lib(op, [&] { slot[k]->addStatement(p); }, tl);
        Item it = b.m[i];
        it.tracked = false;
        m[k].items.push_back(it);
        m[k].pristine = false;
        bag_erase(b, i);
        logev("add", k);
        look(k, "after addStatement");
        break;
      }
      case OP_WRAP: {
        Bag& b = bag[op.bag];
        if (b.st.empty()) break;
        size_t i = (size_t)op.arg % b.st.size();
        if (b.from[i] != actor) fired(F_HANDOFF);
        SQLStatement* p = b.st[i];
        lib(op, [&] {
          make(k, p);
        }, tl);
        clear_model(k);
        m[k].valid = -1;
        m[k].pristine = false;
        Item it = b.m[i];
        it.tracked = false;
        m[k].items.push_back(it);
        bag_erase(b, i);
        logev("wrap", k);
        look(k, "after construction from a statement");
        break;
      }
      case OP_DROP: {
        Bag& b = bag[op.bag];
        if (b.st.empty()) break;
        size_t i = (size_t)op.arg % b.st.size();
        if (b.from[i] != actor) fired(F_HANDOFF);
        SQLStatement* p = b.st[i];
        lib(op, [&] { delete p; }, tl);
        bag_erase(b, i);
        logev("drop", k);
        break;
      }
      case OP_DROPALL: {
        Bag& b = bag[op.bag];
        for (size_t i = 0; i < b.st.size(); i++)
          if (b.from[i] != actor) {
            fired(F_HANDOFF);
            break;
          }
        while (!b.st.empty()) {
          SQLStatement* p = b.st.back();
          lib(op, [&] { delete p; }, tl);
          bag_erase(b, b.st.size() - 1);
        }
        logev("dropall", k);
        break;
      }
      case OP_GIVE: {
        Bag& b = bag[op.bag];
        if (b.st.empty() || op.slot2 == op.bag) break;
        size_t i = (size_t)op.arg % b.st.size();
        Bag& c = bag[op.slot2];
        c.st.push_back(b.st[i]);
        c.m.push_back(b.m[i]);
        c.from.push_back(b.from[i]);
        bag_erase(b, i);
        break;
      }
      case OP_CHECK: check_slot(k, "check"); break;
      case OP_CHECKBAG: {
        Bag& b = bag[op.bag];
        for (size_t i = 0; i < b.st.size(); i++) {
          if (b.from[i] != actor) fired(F_HANDOFF);
          if (ck(CK_MODEL)) check_item(b.st[i], b.m[i], "held statement " + std::to_string(i));
        }
        break;
      }
      case OP_PRINT: {
        if (m[k].dirty || slot[k]->size() == 0 || slot[k]->size() != m[k].items.size()) break;
        size_t i = (size_t)op.arg % slot[k]->size();
        do_print(op, slot[k]->getStatement(i), m[k].items[i]);
        if (ck(CK_MODEL)) check_items(k, "after print");
        break;
      }
      case OP_PRINTBAG: {
        Bag& b = bag[op.bag];
        if (b.st.empty()) break;
        size_t i = (size_t)op.arg % b.st.size();
        if (b.from[i] != actor) fired(F_HANDOFF);
        do_print(op, b.st[i], b.m[i]);
        if (ck(CK_MODEL)) check_item(b.st[i], b.m[i], "held statement after print");
        break;
      }
      case OP_READ: do_read(op, k); break;
      case OP_FLOOD: do_flood(actor, op); break;
      case OP_LOOK: do_look(op); break;
      default: break;
    }
  }
  static void bag_erase(Bag& b, size_t i) {
    b.st.erase(b.st.begin() + (long)i);
    b.m.erase(b.m.begin() + (long)i);
    b.from.erase(b.from.begin() + (long)i);
  }
  void do_print(const Op& op, const SQLStatement* st, const Item& it) {
    bool threw = false;
    Dump shape(false, false);
    shape.stmt(st);
    if (shape.depth > kPrintDepth) return;
    if (op.out == OUT_EXC) std::cout.exceptions(std::ios::badbit | std::ios::failbit);
    if (op.out == OUT_BADBIT) {
      std::cout.setstate(std::ios::badbit);
      fired(F_OUT);
    }
    env_before(op);
    std::string got = print_stmt(st, &op, budget_generous(textlen()), &threw);
    env_after(op);
    if (op.out) {
      std::cout.exceptions(std::ios::goodbit);
      std::cout.clear();
    }
    logev("print", (uint64_t)it.text, (uint64_t)it.idx, fnv(got));
    if (threw && op.out != OUT_EXC) violation("print:exception", "printing statement " + std::to_string(it.idx) + " of " + T(it.text) + " threw an exception");
    if (!ck(CK_PRINT) || !it.fresh) return;
    const Baseline& b = B(it.text);
    if ((size_t)it.idx >= b.prints.size()) return;
    if (op.out == 0) {
      if (got != b.prints[it.idx]) violation("print:text", "printing statement " + std::to_string(it.idx) + " of " + T(it.text) + ": " + difft(b.prints[it.idx], got));
    }
  }
  void do_read(const Op& op, int k) {
    SQLParserResult* r = slot[k].get();
    const SQLParserResult& c = *r;
    uint64_t h = 0;
    lib(op, [&] {
      for (int rep = 0; rep < 2; rep++) {
        h += c.isValid();
        h += c.size();
        h += c.errorMsg() ? strlen(c.errorMsg()) : 0;
        h += (uint64_t)c.errorLine() + (uint64_t)c.errorColumn();
        h += r->parameters().size();
        for (size_t i = 0; i < c.size(); i++) {
          const SQLStatement* st = c.getStatement(i);
          h += (uint64_t)(st == r->getMutableStatement(i));
          h += (uint64_t)st->type() + (uint64_t)st->isType(kStmtSelect) + (uint64_t)st->is(kStmtInsert);
        }
      }
    }, textlen());
    for (size_t i = 0; i < r->size(); i++) {
      std::string got = inspect(r->getStatement(i), &op, budget_generous(textlen()));
      h = fnv(got, h);
      if (!ck(CK_PRINT) || m[k].dirty || i >= m[k].items.size()) continue;
      const Item& it = m[k].items[i];
      const Baseline& b = B(it.text);
      if ((size_t)it.idx < b.insp.size() && got != b.insp[it.idx]) violation("read:text", "inspecting statement " + std::to_string(it.idx) + " of " + T(it.text) + ": " + difft(b.insp[it.idx], got));
    }
    logev("read", k, h);
    check_slot(k, "after reading");
  }

  void begin_round() {
    slot.clear();
    m.clear();
    bag.clear();
    Op op;
    slot.resize((size_t)s.nslots);
    rooms.resize((size_t)s.nslots);
    bufs.resize(32);
    for (int i = 0; i < s.nslots; i++) {
      stack_scribble(4);
      call_enter(&op, 1000000, false);
      make(i);
      call_leave();
    }
    fresh_line = slot[0]->errorLine();
    fresh_col = slot[0]->errorColumn();
    m.resize(s.nslots);
    for (int i = 0; i < s.nslots; i++) clear_model(i);
    held.assign(s.nslots, {nullptr, ""});
    bag.resize(s.nbags);
    lastactor.assign(s.nslots, -1);
  }
  void end_round() {
    Op op;
    bool blind = false;
    for (auto& p : s.phases)
      for (auto& a : p.actors)
        for (auto& o : a.ops) blind = blind || o.blind;
    if (blind)
      for (int k = 0; k < s.nslots; k++) check_slot(k, "at the end");
    for (auto& p : slot) {
      call_enter(&op, budget_generous(textlen()), false);
      p.reset();
      call_leave();
    }
    for (auto& b : bag)
      for (auto* st : b.st) {
        call_enter(&op, budget_generous(textlen()), false);
        delete st;
        call_leave();
      }
    slot.clear();
    bag.clear();
  }
};

void child_run(const Spec& s) {
  core_child_init();
  if (s.checks & CK_HOST) {
    host_prepare();
    host_habits(s.host);
  }
  set_fill(s.fill);
  for (auto& t : const_cast<Spec&>(s).texts) {  // capacities that depend on nothing but the text
    std::string x;
    if (fnv(t) & 1) x.reserve(t.size() + 40);
    x.append(t);
    if (!(fnv(t) & 1)) x.shrink_to_fit();
    t.swap(x);
  }
  std::vector<size_t> live;
  for (int round = 0; round < s.rounds; round++) {
    set_round(round);
    World w(s);
    for (auto& t : s.texts) {
      auto it = g_base.find(t);
      w.base.push_back(!baseless(s) && it != g_base.end() && (it->second.done || it->second.tdone) ? &it->second : nullptr);
    }
    logev("round", round);
    w.begin_round();
    w.host_locale();
    if (s.checks & CK_HOST) {
      for (auto& p : s.phases)
        if (p.actors.size() > 1) w.single = false;
      for (auto& t : s.texts) w.hashes.push_back(fnv(t));
      w.seen = host_state(HOST_SHARED);
    }
    sched_begin(s);
    for (size_t p = 0; p < s.phases.size(); p++) sched_phase(s, (int)p, [&](int a, int i, const Op& op) {
      w.exec(a, i, op);
      w.check_held(op);
    });
    sched_end();
    if (s.locale) {
      if (s.locale > 3) std::locale::global(std::locale::classic());
      setlocale(LC_ALL, "C");
    }
    w.end_round();
    live.push_back(live_blocks().blocks);
    logev("live", live.back());
  }
  if ((s.checks & CK_LEAK) && s.rounds >= 3) {
    size_t a = live[s.rounds - 2], b = live[s.rounds - 1];
    if (b > a) violation("leak", std::to_string(b - a) + " allocations made by library calls are still held after everything was destroyed, again in every round:" + live_describe(s.rounds - 1, 6));
  }
  shm->verdict = 1;
}
}  // namespace sim
