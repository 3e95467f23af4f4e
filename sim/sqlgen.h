#pragma once
#include <string>
#include <vector>
#include "spec.h"

namespace sim {

// ---- independent reference scanner of the lexical rules
enum TokKind { T_WORD, T_QUOTED, T_STRING, T_INT, T_FLOAT, T_OP };
struct Tok {
  TokKind kind;
  size_t b, e;  // [b, e)
};
struct Scan {
  bool bad = false;       // certainly contains something that is no token
  bool unsure = false;    // the reference has no opinion (integers with leading zeros)
  size_t badpos = 0;
  std::string why;
  std::vector<Tok> toks;
  std::vector<std::pair<size_t, size_t>> comments;
  bool balanced = true;
  bool only_blank = true;  // nothing but white space and comments
};
Scan scan(const std::string&);
std::string strip_comments(const std::string&, const Scan&);  // comments become nothing (their newline stays)

// ---- generator
enum Family { FAM_ANY, FAM_STRINGS, FAM_PARAMS, FAM_LITERALS, FAM_DDL, FAM_SELECT, FAM_IMPORT, FAM_ERRORS, FAM_DIAG, FAM_TINY, FAM_N };
struct GenOpt {
  int family = FAM_ANY;
  int size = 2;          // 0 tiny .. 4 large
  bool params = true;
  bool comments = true;
  bool semicolon_hints = true;
};
struct Gen {
  Rng& r;
  GenOpt o;
  int uniq = 0;
  std::vector<std::string> t;
  int depth = 0;
  int budget = 0;  // tokens
  explicit Gen(Rng& r, GenOpt o = GenOpt()) : r(r), o(o) {}
  std::vector<std::string> statement();
  std::string render(const std::vector<std::string>&);
  std::string text() { return render(statement()); }
  // pieces
  void w(const char* s) { t.push_back(s); }
  void w(const std::string& s) { t.push_back(s); }
  std::string ident();
  std::string name();
  std::string str();
  std::string num();
  void table_name();
  void alias();
  void expr(int d);
  void operand(int d);
  void literal(bool extended);
  void expr_list(int d, int maxn);
  void select(int d, bool paren_ok);
  void select_clause(int d);
  void select_no_paren(int d);
  void table_ref(int d);
  void table_atomic(int d);
  void order(int d);
  void limit(int d);
  void column_type();
  void ident_list();
  void window(int d);
  void create();
  void insert();
  void update();
  void del();
  void import_();
  void export_();
  void options(bool csv_ok);
  void hints();
  void set_operator();
  void select_within_set(int d);
};

std::string gen_text(Rng& r, const GenOpt& o);          // one accepted-looking statement
std::string gen_batch(Rng& r, const GenOpt& o, int n, std::vector<std::string>* parts);
std::string gen_reject(Rng& r);                         // a text that is likely rejected, every reason there is
std::string gen_any(Rng& r, int size);                  // mixture
std::string mutate(Rng& r, const std::string& s);       // damage
const int SIZED_N = 40;
std::string gen_huge(Rng& r, bool batch);
std::string gen_chain(Rng& r, int n);                    // n operators or joins in a row
std::string gen_sized(Rng& r, int maxlen, int kind = -1);  // repeated elements around boundary counts
void load_corpus(const std::string& dir);
const std::vector<std::string>& corpus_good();
const std::vector<std::string>& corpus_bad();
}  // namespace sim
