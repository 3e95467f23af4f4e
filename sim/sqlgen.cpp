#include "sqlgen.h"
#include <dirent.h>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <sstream>

namespace sim {

// ---------------------------------------------------------------- reference scanner
static bool isd(unsigned char c) { return c >= '0' && c <= '9'; }
static bool isa(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

Scan scan(const std::string& s) {
  Scan r;
  size_t i = 0, n = s.size();
  auto bad = [&](size_t p, const char* why) {
    if (!r.bad) {
      r.bad = true;
      r.badpos = p;
      r.why = why;
    }
  };
  std::string br;
  while (i < n) {
    unsigned char c = s[i];
    if (c == ' ' || c == '\t' || c == '\n') {
      i++;
      continue;
    }
    if (c == '-' && i + 1 < n && s[i + 1] == '-') {
      size_t b = i;
      while (i < n && s[i] != '\n') {
        if (s[i] == 0) r.unsure = true;
        i++;
      }
      r.comments.push_back({b, i});
      continue;
    }
    r.only_blank = false;
    size_t b = i;
    if (isa(c)) {
      while (i < n && (isa(s[i]) || isd(s[i]) || s[i] == '_')) i++;
      r.toks.push_back({T_WORD, b, i});
      continue;
    }
    if (isd(c)) {
      while (i < n && isd(s[i])) i++;
      if (i < n && s[i] == '.') {
        i++;
        while (i < n && isd(s[i])) i++;
        r.toks.push_back({T_FLOAT, b, i});
      } else {
        std::string d = s.substr(b, i - b);
        if (d.size() > 1 && d[0] == '0') {
          if (d.size() > 15) r.unsure = true;
        } else if (d.size() > 19 || (d.size() == 19 && d > "9223372036854775807")) {
          bool min = b && s[b - 1] == '-' && d == "9223372036854775808";
          if (!min) bad(b, "integer out of range");
        }
        r.toks.push_back({T_INT, b, i});
      }
      continue;
    }
    if (c == '.' && i + 1 < n && isd(s[i + 1])) {
      i++;
      while (i < n && isd(s[i])) i++;
      r.toks.push_back({T_FLOAT, b, i});
      continue;
    }
    if (c == '"') {
      size_t j = i + 1;
      while (j < n && s[j] != '"' && s[j] != '\n') {
        if (s[j] == 0) bad(j, "NUL in a quoted name");
        j++;
      }
      if (j >= n || s[j] == '\n' || j == i + 1) {
        bad(i, "unterminated quoted name");
        i++;
        continue;
      }
      i = j + 1;
      r.toks.push_back({T_QUOTED, b, i});
      continue;
    }
    if (c == '\'') {
      size_t j = i + 1;
      for (;;) {
        if (j >= n) {
          bad(i, "unterminated string");
          break;
        }
        if (s[j] == 0) bad(j, "NUL in a string");
        if (s[j] == '\'') {
          if (j + 1 < n && s[j + 1] == '\'') {
            j += 2;
            continue;
          }
          j++;
          break;
        }
        j++;
      }
      i = j;
      r.toks.push_back({T_STRING, b, i});
      continue;
    }
    static const char* two[] = {"==", "!=", "<>", "<=", ">=", "||"};
    bool done = false;
    for (auto t : two)
      if (s.compare(i, 2, t) == 0) {
        r.toks.push_back({T_OP, i, i + 2});
        i += 2;
        done = true;
        break;
      }
    if (done) continue;
    if (c && strchr("-+*/(){},.;<>=^%:?[]|", c)) {
      if (strchr("([{", c))
        br += c;
      else if (strchr(")]}", c)) {
        char o = c == ')' ? '(' : c == ']' ? '[' : '{';
        if (br.empty() || br.back() != o)
          r.balanced = false;
        else
          br.pop_back();
      }
      r.toks.push_back({T_OP, i, i + 1});
      i++;
      continue;
    }
    bad(i, "unknown character");
    i++;
  }
  if (!br.empty()) r.balanced = false;
  return r;
}

std::string strip_comments(const std::string& s, const Scan& sc) {
  std::string o;
  size_t p = 0;
  for (auto& c : sc.comments) {
    o += s.substr(p, c.first - p);
    o += ' ';
    p = c.second;
  }
  return o + s.substr(p);
}

// ---------------------------------------------------------------- generator
static const char* kNames[] = {"students", "city",  "name",  "grade", "t",  "a",  "b",  "orders", "o_orderkey", "customer",
                               "x_1",      "Value", "price", "r",     "s1", "s2", "id", "tbl",    "col",        "Z9"};

std::string Gen::ident() {
  switch (r.below(8)) {
    case 0: {
      static const char* odd[] = {" sp'ace", " sp'ace", " sp'ace", "%s", "%n%s", "%", "{}", "\\", "\\0", "\xc3\xbc", ";", "--", "?"};
      std::string n = std::string(kNames[r.below(20)]) + (r.chance(1, 3) ? odd[r.below(13)] : "");
      if (r.chance(1, 100)) n += std::string(r.chance(1, 2) ? 70 + r.below(80) : 240 + r.below(40), 'l');
      return "\"" + n + "q" + std::to_string(uniq++) + "x\"";
    }
    case 1: return kNames[r.below(20)];
    case 2: return "\"select\"";
    default: return std::string(1, (char)('a' + r.below(26))) + std::to_string(uniq++) + "x";
  }
}
std::string Gen::name() { return ident(); }
std::string Gen::str() {
  std::string s = "'";
  int n = (int)r.below(4);
  if (o.family == FAM_STRINGS) n = 1 + (int)r.below(8);
  if (r.chance(1, 40)) n = 30;
  for (int i = 0; i < n; i++) switch (r.below(10)) {
      case 0: s += "''"; break;
      case 1: s += " "; break;
      case 2: s += "-- no comment"; break;
      case 3: s += "\""; break;
      case 4: s += "\xc3\xbc"; break;
      case 5: s += r.chance(1, 3) ? "\n" : ";"; break;
      case 6: s += r.chance(1, 3) ? "%s%n" : "?"; break;
      default: s += std::string(1, (char)('A' + r.below(26))) + std::to_string(uniq++) + "v"; break;
    }
  return s + "'";
}
std::string Gen::num() {
  switch (r.below(8)) {
    case 0: return std::to_string(r.below(10));
    case 1: return std::to_string(r.below(1000000));
    case 2: return "9223372036854775807";
    case 3: return "2147483648";
    default: return std::to_string(100 + r.below(900));
  }
}
void Gen::table_name() {
  w(name());
  if (r.chance(1, 5)) {
    w(".");
    w(name());
  }
}
void Gen::ident_list() {
  int n = 1 + (int)r.below(3);
  for (int i = 0; i < n; i++) {
    if (i) w(",");
    w(ident());
  }
}
void Gen::literal(bool extended) {
  int k = (int)r.below(o.family == FAM_LITERALS ? 14 : o.family == FAM_STRINGS ? 16 : 11);
  switch (k) {
    case 0: w(str()); break;
    case 1: w(r.chance(1, 2) ? "TRUE" : "FALSE"); break;
    case 2: w("NULL"); break;
    case 3: w(num()); break;
    case 4: {
      static const char* f[] = {"1.5", "0.25", ".5", "10.", "123456.789", "3.14159", "0.1", "1000000000000000000000.5"};
      auto digits = [&](int n) {
        std::string d;
        for (int i = 0; i < n; i++) d += (char)('0' + r.below(10));
        return d;
      };
      if (r.chance(1, 60))
        w(std::string(290 + r.below(60), '9') + ".0");
      else if (r.chance(1, 2))
        w(digits((int)r.below(r.chance(1, 6) ? 25 : 10)) + "." + digits(1 + (int)r.below(r.chance(1, 6) ? 25 : 8)));
      else
        w(f[r.below(8)]);
      break;
    }
    case 5:
      if (r.chance(1, 2) && o.params && !extended) {
        w("?");
      } else
        w(num());
      break;
    case 6:
      w("DATE");
      w(r.chance(1, 2) ? "'1997-12-31'" : "'2024-02-29'");
      break;
    case 7: {
      static const char* u[] = {"SECOND", "MINUTES", "HOUR", "DAYS", "MONTH", "YEARS", "SECONDS", "MINUTE", "HOURS", "DAY", "MONTHS", "YEAR"};
      w(std::to_string(r.below(100)));
      w(u[r.below(12)]);
      break;
    }
    case 8:
      w("INTERVAL");
      if (r.chance(1, 2)) {
        w("'" + std::to_string(r.below(50)) + "'");
        static const char* u[] = {"SECOND", "MINUTE", "HOUR", "DAY", "MONTH", "YEAR"};
        w(u[r.below(6)]);
      } else {
        static const char* u[] = {"second", "MINUTES", "Hour", "days", "MONTH", "year", "Seconds", "minute", "hours", "DAY", "months", "years"};
        w("'" + std::to_string(r.below(50)) + " " + u[r.below(12)] + "'");
      }
      break;
    case 9:
    case 10:
      if (extended && r.chance(1, 2)) {
        w("-");
        w(num());
      } else
        w(num());
      break;
    case 11: w("-9223372036854775808"); break;
    case 12: w("0"); break;
    default: w(str());
  }
}
void Gen::expr_list(int d, int maxn) {
  int n = 1 + (int)r.below(maxn);
  for (int i = 0; i < n; i++) {
    if (i) w(",");
    expr(d);
    if (r.chance(1, 6)) {
      if (r.chance(1, 2)) w("AS");
      w(ident());
    }
  }
}
void Gen::window(int d) {
  w("OVER");
  w("(");
  if (r.chance(1, 2)) {
    w("PARTITION");
    w("BY");
    expr_list(d - 1, 2);
  }
  if (r.chance(1, 2)) order(d - 1);
  if (r.chance(1, 2)) {
    w(r.chance(1, 3) ? "RANGE" : r.chance(1, 2) ? "ROWS" : "GROUPS");
    auto bound = [&] {
      switch (r.below(5)) {
        case 0: w("UNBOUNDED"); w("PRECEDING"); break;
        case 1: w(num()); w("PRECEDING"); break;
        case 2: w("UNBOUNDED"); w("FOLLOWING"); break;
        case 3: w(num()); w("FOLLOWING"); break;
        default: w(r.chance(1, 2) ? "CURRENT ROW" : "CURRENT\n  ROW");
      }
    };
    if (r.chance(1, 2)) {
      w("BETWEEN");
      bound();
      w("AND");
      bound();
    } else
      bound();
  }
  w(")");
}
void Gen::operand(int d) {
  if (d <= 0 || budget-- <= 0) {
    switch (r.below(6)) {
      case 0:
      case 1: w(ident()); break;
      case 2:
        w(name());
        w(".");
        w(ident());
        break;
      case 3:
        if (o.params) {
          w("?");
          break;
        } /* fallthrough */
      default: literal(false);
    }
    return;
  }
  if (o.family == FAM_PARAMS && o.params && r.chance(1, 2)) {
    w("?");
    return;
  }
  static const char* bin[] = {"-", "+", "/", "*", "%", "^", "LIKE", "NOT LIKE", "ILIKE", "||", "=", "==", "!=", "<>", "<", ">", "<=", ">="};
  switch (r.below(17)) {
    case 0: w("("); expr(d - 1); w(")"); break;
    case 1: w("-"); operand(d - 1); break;
    case 2: w("("); w("NOT"); operand(d - 1); w(")"); break;
    case 3: w("("); operand(d - 1); w("IS"); if (r.chance(1, 2)) w("NOT"); w("NULL"); w(")"); break;
    case 4: w("("); operand(d - 1); w("ISNULL"); w(")"); break;
    case 5:
    case 6: {
      w("(");
      operand(d - 1);
      std::string b = bin[r.below(18)];
      if (b == "NOT LIKE") {
        w("NOT");
        w("LIKE");
      } else
        w(b);
      operand(d - 1);
      w(")");
      break;
    }
    case 7:
      w("CASE");
      if (r.chance(1, 2)) expr(d - 1);
      for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) {
        w("WHEN");
        expr(d - 1);
        w("THEN");
        expr(d - 1);
      }
      if (r.chance(1, 2)) {
        w("ELSE");
        expr(d - 1);
      }
      w("END");
      break;
    case 8:
    case 9: {
      static const char* f[] = {"count", "SUM", "foo", "COALESCE", "rank", "\"f n\""};
      if (r.chance(1, 6)) {
        w(name());
        w(".");
      }
      w(f[r.below(6)]);
      w("(");
      if (r.chance(1, 6)) {
      } else if (r.chance(1, 6)) {
        w("*");
      } else {
        if (r.chance(1, 4)) w("DISTINCT");
        expr_list(d - 1, 3);
      }
      w(")");
      if (r.chance(1, 4)) window(d);
      break;
    }
    case 10: {
      static const char* u[] = {"SECOND", "MINUTE", "HOUR", "DAY", "MONTH", "YEAR"};
      w("EXTRACT");
      w("(");
      w(u[r.below(6)]);
      w("FROM");
      expr(d - 1);
      w(")");
      break;
    }
    case 11: w("CAST"); w("("); expr(d - 1); w("AS"); column_type(); w(")"); break;
    case 12: w("ARRAY"); w("["); expr_list(d - 1, 3); w("]"); break;
    case 13: operand(0); w("["); w(std::to_string(r.below(20))); w("]"); break;
    case 14: w("("); select_no_paren(d - 1); w(")"); break;
    default: operand(0);
  }
}
void Gen::expr(int d) {
  if (d <= 0 || budget-- <= 0) {
    operand(0);
    return;
  }
  switch (r.below(9)) {
    case 0: operand(d - 1); w("BETWEEN"); operand(d - 1); w("AND"); operand(d - 1); break;
    case 1: w("("); expr(d - 1); w("AND"); expr(d - 1); w(")"); break;
    case 2: w("("); expr(d - 1); w("OR"); expr(d - 1); w(")"); break;
    case 3: if (r.chance(1, 2)) w("NOT"); w("EXISTS"); w("("); select_no_paren(d - 1); w(")"); break;
    case 4:
      operand(d - 1);
      if (r.chance(1, 2)) w("NOT");
      w("IN");
      w("(");
      if (r.chance(1, 3))
        select_no_paren(d - 1);
      else
        expr_list(d - 1, 4);
      w(")");
      break;
    default: operand(d);
  }
}
void Gen::order(int d) {
  w("ORDER");
  w("BY");
  for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) {
    if (i) w(",");
    expr(d - 1);
    if (r.chance(1, 3)) w(r.chance(1, 2) ? "ASC" : "DESC");
    if (r.chance(1, 5)) {
      w("NULLS");
      w(r.chance(1, 2) ? "FIRST" : "LAST");
    }
  }
}
void Gen::limit(int d) {
  switch (r.below(5)) {
    case 0: w("LIMIT"); expr(d > 1 ? 1 : 0); break;
    case 1: w("OFFSET"); expr(0); break;
    case 2: w("LIMIT"); expr(0); w("OFFSET"); expr(0); break;
    case 3: w("LIMIT"); w("ALL"); break;
    default: w("LIMIT"); w("ALL"); w("OFFSET"); expr(0);
  }
}
void Gen::alias() {
  if (r.chance(1, 2)) w("AS");
  w(ident());
}
void Gen::table_atomic(int d) {
  if (d > 0 && budget > 0 && r.chance(1, 4)) {
    w("(");
    select(d - 1, true);
    w(")");
    if (r.chance(2, 3)) {
      if (r.chance(1, 4)) {
        w("AS");
        w(ident());
        w("(");
        ident_list();
        w(")");
      } else
        alias();
    }
    return;
  }
  table_name();
  if (r.chance(1, 3)) {
    if (r.chance(1, 5)) {
      w("AS");
      w(ident());
      w("(");
      ident_list();
      w(")");
    } else
      alias();
  }
}
void Gen::table_ref(int d) {
  int n = 1 + (r.chance(1, 3) ? (int)r.below(3) : 0);
  for (int i = 0; i < n; i++) {
    if (i) w(",");
    table_atomic(d);
    int j = r.chance(1, 3) ? 1 + (int)r.below(2) : 0;
    while (j--) {
      switch (r.below(10)) {
        case 0:
          w("NATURAL");
          w("JOIN");
          table_name();
          break;
        default: {
          static const char* jt[] = {"", "INNER", "LEFT", "LEFT OUTER", "RIGHT", "RIGHT OUTER", "FULL", "FULL OUTER", "OUTER", "CROSS"};
          std::string x = jt[r.below(10)];
          auto sp = x.find(' ');
          if (sp != std::string::npos) {
            w(x.substr(0, sp));
            w(x.substr(sp + 1));
          } else if (!x.empty())
            w(x);
          w("JOIN");
          table_atomic(d - 1);
          if (r.chance(1, 3)) {
            w("USING");
            w("(");
            ident_list();
            w(")");
          } else {
            w("ON");
            expr(d - 1);
          }
        }
      }
    }
  }
}
void Gen::set_operator() {
  w(r.chance(1, 2) ? "UNION" : r.chance(1, 2) ? "INTERSECT" : "EXCEPT");
  if (r.chance(1, 3)) w("ALL");
}
void Gen::select_clause(int d) {
  w("SELECT");
  if (r.chance(1, 12)) {
    w("TOP");
    w(std::to_string(r.below(100)));
  }
  if (r.chance(1, 8)) w("DISTINCT");
  if (r.chance(1, 4)) {
    w("*");
  } else if (r.chance(1, 12)) {
    w(name());
    w(".");
    w("*");
    if (r.chance(1, 2)) {
      w(",");
      expr_list(d, 2);
    }
  } else
    expr_list(d, 3);
  if (r.chance(5, 6)) {
    w("FROM");
    table_ref(d);
  }
  if (r.chance(1, 2)) {
    w("WHERE");
    expr(d);
  }
  if (r.chance(1, 5)) {
    w("GROUP");
    w("BY");
    expr_list(d - 1, 3);
    if (r.chance(1, 2)) {
      w("HAVING");
      expr(d - 1);
    }
  }
}
void Gen::select_within_set(int d) {
  if (r.chance(1, 3)) {
    w("(");
    select_no_paren(d - 1);
    w(")");
    return;
  }
  select_clause(d);
  if (d > 0 && r.chance(1, 4)) {
    set_operator();
    select_within_set(d - 1);
  }
}
void Gen::select_no_paren(int d) {
  select_clause(d);
  if (d > 0 && r.chance(1, 6)) {
    set_operator();
    select_within_set(d - 1);
  }
  if (r.chance(1, 5)) order(d);
  if (r.chance(1, 5)) limit(d);
  if (r.chance(1, 10))
    for (int i = 0, n = 1 + (int)r.below(2); i < n; i++) {
      w("FOR");
      switch (r.below(4)) {
        case 0: w("UPDATE"); break;
        case 1: w("NO"); w("KEY"); w("UPDATE"); break;
        case 2: w("SHARE"); break;
        default: w("KEY"); w("SHARE");
      }
      if (r.chance(1, 2)) {
        w("OF");
        ident_list();
      }
      if (r.chance(1, 3)) {
        w("SKIP");
        w("LOCKED");
      } else if (r.chance(1, 3))
        w("NOWAIT");
    }
}
void Gen::select(int d, bool) {
  if (r.chance(1, 6)) {
    w("WITH");
    for (int i = 0, n = 1 + (int)r.below(2); i < n; i++) {
      if (i) w(",");
      w(ident());
      w("AS");
      w("(");
      select_no_paren(d - 1);
      w(")");
    }
  }
  if (r.chance(1, 6)) {
    int paren = r.chance(1, 4) ? 2 + (int)r.below(3) : 1;
    for (int i = 0; i < paren; i++) w("(");
    select_no_paren(d - 1);
    for (int i = 0; i < paren; i++) w(")");
    if (r.chance(1, 2)) {
      set_operator();
      select_within_set(d - 1);
      if (r.chance(1, 3)) order(d - 1);
      if (r.chance(1, 3)) limit(d - 1);
    }
    return;
  }
  select_no_paren(d);
}
void Gen::column_type() {
  static const char* plain[] = {"BIGINT", "BOOLEAN", "DATE", "DATETIME", "DOUBLE", "FLOAT", "INT", "INTEGER", "LONG", "REAL", "SMALLINT", "TEXT", "TIMESTAMP", "TIME", "DECIMAL"};
  switch (r.below(6)) {
    case 0:
      w(r.chance(1, 2) ? "CHAR" : "VARCHAR");
      w("(");
      w(std::to_string(r.below(200)));
      w(")");
      break;
    case 1:
      w("CHARACTER VARYING");
      w("(");
      w(std::to_string(r.below(200)));
      w(")");
      break;
    case 2:
      w("DECIMAL");
      w("(");
      w(std::to_string(r.below(20)));
      if (r.chance(1, 2)) {
        w(",");
        w(std::to_string(r.below(20)));
      }
      w(")");
      break;
    case 3:
      w("TIME");
      w("(");
      w(std::to_string(r.below(10)));
      w(")");
      break;
    default: w(plain[r.below(15)]);
  }
}
void Gen::create() {
  w("CREATE");
  int k = (int)r.below(10);
  auto ine = [&] {
    if (r.chance(1, 4)) {
      w("IF");
      w("NOT");
      w("EXISTS");
    }
  };
  if (k < 5) {
    w("TABLE");
    ine();
    table_name();
    w("(");
    for (int i = 0, n = 1 + (int)r.below(o.size > 1 ? 5 : 2); i < n; i++) {
      if (i) w(",");
      int e = (int)r.below(8);
      if (e == 0) {
        w("PRIMARY");
        w("KEY");
        w("(");
        ident_list();
        w(")");
      } else if (e == 1) {
        w("UNIQUE");
        w("(");
        ident_list();
        w(")");
      } else if (e == 2) {
        w("FOREIGN");
        w("KEY");
        w("(");
        ident_list();
        w(")");
        w("REFERENCES");
        table_name();
        if (r.chance(1, 2)) {
          w("(");
          ident_list();
          w(")");
        }
      } else {
        w(ident());
        column_type();
        bool null = r.chance(1, 2);
        for (int j = 0, m = (int)r.below(4); j < m; j++) switch (r.below(4)) {
            case 0:
              if (!null) {
                w("PRIMARY");
                w("KEY");
              }
              break;
            case 1: w("UNIQUE"); break;
            case 2:
              if (!null) w("NOT");
              w("NULL");
              break;
            default:
              w("REFERENCES");
              table_name();
              if (r.chance(1, 2)) {
                w("(");
                ident_list();
                w(")");
              }
          }
      }
    }
    w(")");
  } else if (k < 6) {
    w("TABLE");
    ine();
    table_name();
    w("FROM");
    w("TBL");
    w("FILE");
    w(str());
  } else if (k < 7) {
    w("TABLE");
    ine();
    table_name();
    w("AS");
    select(o.size, true);
  } else if (k < 9) {
    w("VIEW");
    ine();
    table_name();
    if (r.chance(1, 2)) {
      w("(");
      ident_list();
      w(")");
    }
    w("AS");
    select(o.size, true);
  } else {
    w("INDEX");
    ine();
    if (r.chance(2, 3)) w(ident());
    w("ON");
    table_name();
    w("(");
    ident_list();
    w(")");
  }
}
void Gen::insert() {
  w("INSERT");
  w("INTO");
  table_name();
  if (r.chance(1, 2)) {
    w("(");
    ident_list();
    w(")");
  }
  if (r.chance(2, 3)) {
    w("VALUES");
    w("(");
    for (int i = 0, n = 1 + (int)r.below(5); i < n; i++) {
      if (i) w(",");
      if (r.chance(1, 8)) {
        w("CAST");
        w("(");
        literal(true);
        w("AS");
        column_type();
        w(")");
      } else
        literal(true);
    }
    w(")");
  } else
    select_no_paren(o.size);
}
void Gen::update() {
  w("UPDATE");
  table_name();
  w("SET");
  for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) {
    if (i) w(",");
    w(ident());
    w("=");
    expr(o.size);
  }
  if (r.chance(1, 2)) {
    w("WHERE");
    expr(o.size);
  }
}
void Gen::del() {
  if (r.chance(1, 4)) {
    w("TRUNCATE");
    table_name();
    return;
  }
  w("DELETE");
  w("FROM");
  table_name();
  if (r.chance(3, 4)) {
    w("WHERE");
    expr(o.size);
  }
}
void Gen::options(bool) {
  bool with = r.chance(1, 2);
  if (with) w("WITH");
  w("(");
  int fmt = (int)r.below(4);  // 0 csv
  bool f = r.chance(1, 2), e = r.chance(1, 2), any = false;
  bool csv = !f || fmt == 0;
  auto sep = [&] {
    if (any) w(",");
    any = true;
  };
  static const char* ft[] = {"CSV", "TBL", "binary", "BIN"};
  if (f) {
    sep();
    w("FORMAT");
    w(ft[fmt]);
  }
  if (e) {
    sep();
    w("ENCODING");
    w(str());
  }
  if (csv) {
    if (r.chance(1, 2)) {
      sep();
      w("DELIMITER");
      w("'|'");
    }
    if (r.chance(1, 2)) {
      sep();
      w("NULL");
      w(str());
    }
    if (r.chance(1, 2)) {
      sep();
      w("QUOTE");
      w(str());
    }
  }
  if (!any) {
    w("FORMAT");
    w(ft[fmt]);
  }
  w(")");
}
void Gen::import_() {
  if (r.chance(1, 3)) {
    static const char* ft[] = {"CSV", "TBL", "Binary", "BIN"};
    w("IMPORT");
    w("FROM");
    w(ft[r.below(4)]);
    w("FILE");
    w(str());
    w("INTO");
    table_name();
    return;
  }
  w("COPY");
  table_name();
  w("FROM");
  w(str());
  if (r.chance(1, 2)) options(true);
  if (r.chance(1, 3)) {
    w("WHERE");
    expr(1);
  }
}
void Gen::export_() {
  w("COPY");
  if (r.chance(1, 2)) {
    table_name();
  } else {
    w("(");
    select_no_paren(1);
    w(")");
  }
  w("TO");
  w(str());
  if (r.chance(1, 2)) options(true);
}
void Gen::hints() {
  w("WITH");
  w("HINT");
  w("(");
  for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) {
    if (i) w(",");
    w(ident());
    if (r.chance(1, 2)) {
      w("(");
      for (int j = 0, m = 1 + (int)r.below(3); j < m; j++) {
        if (j) w(",");
        literal(true);
      }
      w(")");
    }
  }
  w(")");
}
std::vector<std::string> Gen::statement() {
  t.clear();
  budget = o.size == 0 ? 3 : o.size == 1 ? 8 : o.size == 2 ? 16 : o.size == 3 ? 40 : 120;
  int k;
  switch (o.family) {
    case FAM_SELECT:
    case FAM_PARAMS: k = (int)r.below(6); break;
    case FAM_DDL: k = 8 + (int)r.below(3); break;
    case FAM_IMPORT: k = 11 + (int)r.below(3); break;
    case FAM_TINY: k = r.chance(1, 2) ? 14 + (int)r.below(8) : 6; break;
    case FAM_STRINGS: k = r.chance(1, 2) ? 6 : r.chance(1, 2) ? 17 : (int)r.below(14); break;
    case FAM_LITERALS: k = r.chance(1, 2) ? 6 : (int)r.below(5); break;
    default: k = (int)r.below(22);
  }
  bool hintable = true;
  if (k < 4)
    select(o.size, true);
  else if (k == 4)
    del();
  else if (k == 5)
    update();
  else if (k < 8)
    insert();
  else if (k < 11)
    create();
  else if (k < 13) {
    import_();
    hintable = false;
  } else if (k == 13) {
    export_();
    hintable = false;
  } else if (k == 14) {
    w(r.chance(1, 3) ? "BEGIN" : r.chance(1, 2) ? "COMMIT" : "ROLLBACK");
    if (r.chance(1, 2)) w("TRANSACTION");
  } else if (k == 15) {
    hintable = false;
    switch (r.below(3)) {
      case 0: w("SHOW"); w("TABLES"); break;
      case 1: w("SHOW"); w("COLUMNS"); table_name(); break;
      default: w("DESCRIBE"); table_name();
    }
  } else if (k == 16) {
    w("DROP");
    int d = (int)r.below(3);
    w(d == 0 ? "TABLE" : d == 1 ? "VIEW" : "INDEX");
    if (r.chance(1, 3)) {
      w("IF");
      w("EXISTS");
    }
    if (d == 2)
      w(ident());
    else
      table_name();
  } else if (k == 17) {
    w("PREPARE");
    w(ident());
    w("FROM");
    w(str());
  } else if (k == 18) {
    w("EXECUTE");
    w(ident());
    if (r.chance(2, 3)) {
      w("(");
      for (int i = 0, n = (int)r.below(5); i < n; i++) {
        if (i) w(",");
        literal(true);
      }
      w(")");
    }
  } else if (k == 19) {
    w("DEALLOCATE");
    w("PREPARE");
    w(ident());
  } else if (k == 20) {
    w("ALTER");
    w("TABLE");
    if (r.chance(1, 3)) {
      w("IF");
      w("EXISTS");
    }
    table_name();
    w("DROP");
    w("COLUMN");
    if (r.chance(1, 3)) {
      w("IF");
      w("EXISTS");
    }
    w(ident());
  } else
    del();
  if (hintable && o.semicolon_hints && r.chance(1, 10)) hints();
  return t;
}
static bool wordy(const std::string& s) { return !s.empty() && (isa(s[0]) || isd(s[0]) || s[0] == '.'); }
std::string Gen::render(const std::vector<std::string>& v) {
  std::string s;
  int style = (int)r.below(4);  // 0 compact, 1 spaces, 2 mixed, 3 with newlines and comments
  int kc = (int)r.below(3);
  for (size_t i = 0; i < v.size(); i++) {
    std::string x = v[i];
    if (kc && isa(x[0]) && x.size() > 1 && !isd(x[1]) && isupper((unsigned char)x[0]) && isupper((unsigned char)x[1])) {
      for (auto& c : x)
        if (kc == 1 || r.chance(1, 2)) c = (char)tolower((unsigned char)c);
    }
    if (i) {
      bool need = wordy(v[i - 1]) && wordy(x);
      // "-" "-" would start a comment; "." next to a digit changes the number; '' joins strings
      char a = s.empty() ? 0 : s.back(), b = x[0];
      if ((a == '-' && b == '-') || a == '.' || b == '.' || (a == '\'' && b == '\'') || (a == '"' && b == '"') || isd(a)) need = true;
      if (strchr("<>=!|", a) && strchr("<>=|", b)) need = true;
      if (style == 0) {
        if (need) s += ' ';
      } else if (style == 1) {
        s += ' ';
      } else {
        int k = (int)r.below(style == 3 ? 24 : 16);
        if (k < 10) s += ' ';
        else if (k == 10) s += "  ";
        else if (k == 11) s += "\n";
        else if (k == 12) s += "\t ";
        else if (k < 16) {
          if (need) s += ' ';
        } else if (k == 16 && o.comments)
          s += " -- note " + std::to_string(r.below(100)) + "\n";
        else if (k == 17 && o.comments)
          s += "--\n  ";
        else if (k == 18 && o.comments)
          s += " -- it's\n\t";
        else
          s += " ";
      }
    }
    s += x;
  }
  return s;
}

static std::vector<std::string> good, bad;
const std::vector<std::string>& corpus_good() { return good; }
const std::vector<std::string>& corpus_bad() { return bad; }
void load_corpus(const std::string& dir) {
  std::vector<std::string> names;
  if (DIR* d = opendir(dir.c_str())) {
    while (auto* e = readdir(d))
      if (e->d_name[0] != '.') names.push_back(e->d_name);
    closedir(d);
  }
  std::sort(names.begin(), names.end());
  for (auto& n : names) {
    std::ifstream f(dir + "/" + n);
    if (n.compare(0, 3, "tpc") == 0) {
      std::stringstream ss;
      ss << f.rdbuf();
      good.push_back(ss.str());
      continue;
    }
    std::string l;
    while (std::getline(f, l)) {
      if (l.empty() || l[0] == '#') continue;
      if (l[0] == '!') l = l.substr(1);
      (n.find("bad") == std::string::npos ? good : bad).push_back(l);
    }
  }
}

std::string gen_text(Rng& r, const GenOpt& o) {
  if (o.family == FAM_ANY && r.chance(1, 8) && !good.empty()) return r.pick(good);
  Gen g(r, o);
  g.uniq = (int)r.below(1000);
  static const char* lead[] = {" ", "\n", "  ", "\t\n ", "\n\n", "    "};
  if (r.chance(1, 24)) return lead[r.below(6)] + g.text();
  return g.text();
}
std::string gen_batch(Rng& r, const GenOpt& o, int n, std::vector<std::string>* parts) {
  std::string s;
  Gen g(r, o);
  g.uniq = (int)r.below(1000);
  for (int i = 0; i < n; i++) {
    std::string p = g.text();
    if (parts) parts->push_back(p);
    if (i) {
      static const char* sep[] = {";", "; ", ";\n", " ; ", ";\t\n ", "; -- next\n"};
      s += sep[r.below(o.comments ? 6 : 5)];
    }
    s += p;
  }
  if (r.chance(1, 2)) s += r.chance(1, 2) ? ";" : " ;\n";
  return s;
}
std::string gen_reject(Rng& r) {
  GenOpt o;
  o.size = (int)r.below(3);
  Gen g(r, o);
  switch (r.below(23)) {
    case 22: {  // the name becomes a part of the message
      static const int lens[] = {5, 20, 60, 100, 127, 200, 255, 300, 511, 1000, 4095, 5000, 9000};
      std::string n = r.chance(1, 3) ? "\"%s%n " : "\"n";
      n += std::string((size_t)lens[r.below(13)] + r.below(12), 'm') + "\"";
      return "CREATE TABLE t (" + n + " INT NULL NOT NULL)";
    }
    case 0: return "SELECT * FROM t ORDER BY a NULLS " + g.ident();
    case 1: return "SELECT DATE '1997-1" + std::to_string(r.below(100)) + "x' FROM t";
    case 2: return "SELECT INTERVAL '5 parsecs' FROM " + g.ident();
    case 3: return "SELECT INTERVAL 'abc' DAY FROM " + g.ident();
    case 4: return "SELECT INTERVAL '7 days ago'";
    case 5: return "INSERT INTO t VALUES (1, ?)";
    case 6: return "CREATE TABLE t (" + g.ident() + " INT NULL PRIMARY KEY, " + g.ident() + " TEXT NOT NULL NULL)";
    case 7: return "CREATE TABLE s.t (" + g.ident() + " INT NULL NOT NULL REFERENCES a.b (c, d))";
    case 8: return "CREATE TABLE IF NOT EXISTS s.t FROM " + g.ident() + " FILE 'x.tbl'";
    case 9: return "COPY t FROM 'f' WITH (FORMAT tbl, DELIMITER '|')";
    case 10: return "COPY t FROM 'f' WITH (FORMAT csv, FORMAT csv)";
    case 11: return "COPY t FROM 'f' WITH (ENCODING 'a', ENCODING 'b')";
    case 12: return "COPY t TO 'f' (QUOTE 'a', QUOTE 'b')";
    case 13: return "COPY t FROM 'f' (BOGUS 'a')";
    case 14: return "COPY t FROM 'f' (DELIMITER ',', FORMAT bin)";
    case 15: return "IMPORT FROM " + g.ident() + " FILE 'x' INTO " + g.ident();
    case 16: return "SELECT 99999999999999999999 FROM t";
    case 17: return "SELECT 'abc FROM t";
    case 18: return "SELECT a # b FROM t";
    case 19: return bad.empty() ? "SELECT FROM WHERE" : r.pick(bad);
    case 20: {
      std::vector<std::string> v = g.statement();
      size_t k = r.below(v.size());
      v.resize(k);
      return g.render(v.empty() ? std::vector<std::string>{"("} : v);
    }
    default: {
      std::vector<std::string> v = g.statement();
      static const char* junk[] = {")", "(", ",", "SELECT", "WHERE", "=", "x9", "'s'", "42", ".", ";", "FROM", "AFTER", "DELTA", "OFF", "PLAN", "COLUMN", "HASH", "VIRTUAL", "SORT", "UTF8", "LOCAL", "DIRECT", "FULL", "CAST", "EXISTS", "OUTER", "HINT"};
      v.insert(v.begin() + r.below(v.size() + 1), junk[r.below(28)]);
      return g.render(v);
    }
  }
}
std::string mutate(Rng& r, const std::string& in) {
  std::string s = in;
  int n = r.chance(3, 4) ? 1 : 1 + (int)r.below(4);
  while (n--) {
    size_t p = r.below(s.size() + 1);
    switch (r.below(16)) {
      case 0: s.resize(p); break;
      case 1:
        if (p < s.size()) s[p] = (char)r.below(256);
        break;
      case 2:
        if (p < s.size()) s[p] ^= (char)(1 << r.below(8));
        break;
      case 3: {
        static const char c[] = "#@!&$~`_\\\r\f\v\x01\x7f\x80\xff\"'{}[]();.,?:|";
        s.insert(p, 1, c[r.below(sizeof c - 1)]);
        break;
      }
      case 4: s.insert(p, 1, '\0'); break;
      case 5:
        if (p < s.size()) s.erase(p, 1 + r.below(8));
        break;
      case 6: {
        size_t l = 1 + r.below(12);
        std::string sub = s.substr(p, l);
        s.insert(p, sub);
        break;
      }
      case 7: {
        std::string o;
        for (char c : s) {
          if (c == '\n') o += '\r';
          o += c;
        }
        s = o;
        break;
      }
      case 8: s.insert(p, "'"); break;
      case 9: {
        static const char* j[] = {" 99999999999999999999 ", " 9223372036854775808 ", "--", "-- x\n", " ; ", " ) ", " NULL ", "\"", "''", " SELECT ", " ? ", ";;", "!", " #", "\n"};
        s.insert(p, j[r.below(15)]);
        break;
      }
      case 10:
        if (!s.empty()) {
          size_t q = r.below(s.size());
          if (p < s.size()) std::swap(s[p], s[q]);
        }
        break;
      case 11: {
        Scan sc = scan(s);
        if (sc.toks.size() > 1) {
          auto& t = sc.toks[r.below(sc.toks.size())];
          s.erase(t.b, t.e - t.b);
        }
        break;
      }
      case 12:
      case 13: {  // what editors, shells and transports add
        static const std::string seq[] = {"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\xc2\xa0", "\xe2\x80\x99", "\xe2\x80\x9c", "\xe2\x80\x94", "\xe2\x80\x8b", "\xe3\x80\x80", "\xc3\xa9", "\xc2\x85", "\xe2\x80\xa8", "\xef\xbc\x9b", "\x1a", "\x04",
                                          "\r\n", "\r", "\f", "\v", "\b", "\x7f", "\x1b[0m", "\\n", "\\'", "\\", "\\0", "%00", "&nbsp;", "&gt;", "/*", "*/", "/* x */", "//", "#", "# x\n", "`", "$1", ":a", "@a", "$$", "{", "}", "[", "]", "^", "~", "!", "|", "&", "=>", "<-", "::", "..", "...", "1.", ".5", "1e5", "0x1F", "1_000", "'\\0'", "N'x'", "E'a'", "GO\n", "/", "\\g", "\\q", "--", "--\n", "-- \r", "\xff"};
        const int nseq = (int)(sizeof seq / sizeof *seq);
        size_t q = p;
        int where = (int)r.below(4);
        if (where == 0) q = 0;
        else if (where == 1) q = s.size();
        else if (where == 2) {
          Scan sc = scan(s);
          if (!sc.toks.empty()) {
            auto& t = sc.toks[r.below(sc.toks.size())];
            q = r.chance(1, 2) ? t.b : t.e;
          }
        }
        s.insert(q, seq[r.chance(1, 4) ? r.below(14) : r.below((uint64_t)nseq)]);
        break;
      }
      case 14: {  // one character for another, everywhere or in one place
        static const char from[] = " \n';,-\"().=";
        static const char* to[] = {"\xc2\xa0", "\r", "\xe2\x80\x99", "\xef\xbc\x9b", "\xef\xbc\x8c", "\xe2\x80\x93", "`", "[", "]", "\xc2\xb7", "=="};
        size_t k = r.below(11);
        std::string o;
        bool all = r.chance(1, 3), done = false;
        for (size_t i = 0; i < s.size(); i++)
          if (s[i] == from[k] && (all || (!done && i >= p))) {
            o += to[k];
            done = true;
          } else
            o += s[i];
        s = o;
        break;
      }
      default: {
        Scan sc = scan(s);
        if (!sc.toks.empty()) {
          auto& t = sc.toks[r.below(sc.toks.size())];
          auto& u = sc.toks[r.below(sc.toks.size())];
          std::string x = s.substr(u.b, u.e - u.b);
          s = s.substr(0, t.b) + " " + x + " " + s.substr(r.chance(1, 2) ? t.e : t.b);
        }
      }
    }
  }
  return s;
}
std::string gen_sized(Rng& r, int maxlen, int kind) {
  // counts and lengths around the sizes of buffers, counters and limits
  static const int counts[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2000, 4096, 8192, 16384, 20000, 32768, 65536};
  int n = counts[r.below(sizeof counts / sizeof *counts)];
  if (r.chance(1, 6)) n += (int)r.below(40);
  // per: rough cost of one element in bytes
  auto rep = [&](const std::string& x, const std::string& sep, int per) {
    std::string s;
    int m = n;
    if (m * (long)per > maxlen) m = maxlen / per - (int)r.below(3);
    if (m < 1) m = 1;
    for (int i = 0; i < m; i++) {
      if (i) s += sep;
      s += x;
    }
    return s;
  };
  std::string t;
  switch (kind >= 0 ? kind : (int)r.below(SIZED_N)) {
    case 0: t = "SELECT '" + rep("ab''", "", 4) + "' FROM t"; break;
    case 1: t = "SELECT " + rep("x", "", 1) + " FROM t"; break;
    case 2: t = "SELECT " + rep("a", " + ", 12) + " FROM t"; break;
    case 3: t = "SELECT " + rep("a", ", ", 6) + " FROM t"; break;
    case 4: t = "INSERT INTO t VALUES (" + rep("1", ",", 4) + ")"; break;
    case 5: t = rep("SELECT 1", ";", 18); break;
    case 6: t = "SELECT " + rep("?", ",", 24) + " FROM t"; break;
    case 7: t = "SELECT " + rep("(", "", 60) + "1" + rep(")", "", 60); break;
    case 8: t = "SELECT a" + rep(" ", "", 1) + "FROM t" + rep("\n", "", 1); break;
    case 9: t = "SELECT a --" + rep("c", "", 1) + "\n FROM t"; break;
    case 10: t = "SELECT * FROM t WHERE " + rep("a = 'x'", " AND ", 24); break;
    case 11: t = "SELECT * FROM " + rep("t", ", ", 8); break;
    case 12: t = "SELECT * FROM t WHERE a IN (" + rep("'v'", ",", 6) + ")"; break;
    case 13: t = "CREATE TABLE t (" + rep("c INT NOT NULL", ", ", 24) + ")"; break;
    case 14: t = "SELECT * FROM t " + rep("JOIN u ON t.a = u.a", " ", 30); break;
    case 15: t = rep("UPDATE t SET a = ? WHERE b = ?", ";\n", 60); break;
    case 16: t = "SELECT \"" + rep("q", "", 1) + "\" FROM s.\"" + rep("x", "", 1) + "\""; break;
    case 17: t = "SELECT CASE " + rep("WHEN a = 1 THEN 'b'", " ", 30) + " ELSE c END FROM t"; break;
    case 18: t = "WITH " + rep("w AS (SELECT 1 FROM t)", ", ", 40) + " SELECT * FROM w"; break;
    case 19: t = rep("SELECT a FROM t", " UNION ALL ", 40); break;
    case 20: t = "SELECT " + rep("- ", "", 20) + "a FROM t WHERE " + rep("NOT ", "", 20) + "b"; break;
    case 21: t = "SELECT a FROM t WHERE b = " + rep("(SELECT c FROM u WHERE d = ", "", 60) + "1" + rep(")", "", 60); break;
    case 22: t = "SELECT a FROM t ORDER BY " + rep("b DESC", ", ", 16) + " LIMIT 3"; break;
    case 23: t = "SELECT a FROM t GROUP BY " + rep("b", ", ", 6) + " HAVING " + rep("c > 1", " OR ", 20); break;
    case 24: t = "SELECT f(" + rep("g(", "", 60) + "x" + rep(")", "", 60) + ") FROM t"; break;
    case 25: t = "SELECT a" + rep("[1]", "", 24) + " FROM t"; break;
    case 26: t = "UPDATE t SET " + rep("a = 1", ", ", 16) + " WHERE b = ?"; break;
    case 27: t = "CREATE INDEX i ON t (" + rep("a", ", ", 8) + ")"; break;
    case 28: t = "SELECT 1 FROM t WITH HINT (" + rep("h(1, 'x')", ", ", 30) + ")"; break;
    case 29: t = "SELECT a" + rep("\n-- x", "", 6) + "\nFROM t"; break;
    case 30: t = rep("DELETE FROM t WHERE a = ?", "; ", 40); break;
    case 31: t = "SELECT * FROM t WHERE " + rep("a = ?", " OR ", 40); break;
    case 32: t = "SELECT '" + rep("\xc3\xa4", "", 2) + "' FROM t"; break;
    case 33: t = "SELECT '" + rep("line\n", "", 5) + "' FROM t"; break;
    case 34: t = "SELECT 0." + rep("3", "", 1) + ", 1" + std::string((size_t)r.below(20), '0') + " FROM t"; break;
    case 35: t = "SELECT a FROM t " + rep("FOR UPDATE OF u SKIP LOCKED", " ", 40); break;
    case 36: t = "SELECT " + rep("a ||", " ", 16) + " b FROM t"; break;
    case 37: t = "SELECT * FROM " + rep("(SELECT * FROM ", "", 60) + "t" + rep(") AS x", "", 60); break;
    case 38: t = "PREPARE p FROM '" + rep("SELECT ''x''", "; ", 12) + "'"; break;
    default: t = "EXECUTE p(" + rep("'v'", ", ", 8) + ")"; break;
  }
  return t;
}
// hundreds of kilobytes to a few megabytes
std::string gen_huge(Rng& r, bool batch) {
  static const int lens[] = {263000, 300000, 525000, 700000, 1049000, 1100000, 1300000, 2100000};
  size_t n = (size_t)lens[r.below(8)] + r.below(3000);
  auto fill = [&](const char* x) {
    std::string o;
    o.reserve(n + 16);
    while (o.size() < n) o += x;
    return o;
  };
  switch (r.below(batch ? 11 : 7)) {
    case 0: return "SELECT a" + fill(" ") + "FROM t";
    case 1: return "SELECT a FROM t" + fill(r.chance(1, 2) ? "\n" : " \t");
    case 2: return "SELECT a --" + fill("c") + "\nFROM t";
    case 3: return "SELECT '" + fill(r.chance(1, 2) ? "x" : "a ''") + "' FROM t";
    case 4: return "SELECT \"" + fill("q") + "\" FROM t";
    case 5: return "SELECT '" + fill("line\n") + "' FROM t";
    case 6: return "SELECT a" + fill("\n--c") + "\nFROM t";
    case 7: return fill("COMMIT TRANSACTION            ;");
    case 8: return fill("DELETE FROM t  -- all of the rows that it contains today\n;\n");
    default: {
      std::string l = "SELECT a FROM t WHERE b = '" + std::string(500 + r.below(4000), 'y') + (r.chance(1, 2) ? "';\n" : "'; ");
      return fill(l.c_str());
    }
  }
}
std::string gen_chain(Rng& r, int n) {
  std::string t, x;
  auto rep = [&](const char* e) {
    std::string o;
    for (int i = 0; i < n; i++) o += e;
    return o;
  };
  static const char* el[] = {"[1]", "+a", " OR a", " AND b=?", " ISNULL", " IS NOT NULL", "||'x'", "*2", " NATURAL JOIN t", " JOIN t ON a=b", " CROSS JOIN t", "%b", " LIKE a", " - 1.5", "::INT"};
  int k = (int)r.below(15);
  if (k == 3) n /= 20;  // the list of placeholders costs the square of their number
  t = k == 8 || k == 9 || k == 10 ? "SELECT * FROM t" + rep(el[k]) : (r.chance(1, 2) ? "SELECT a" : "DELETE FROM t WHERE a") + rep(el[k]);
  if (r.chance(1, 3)) t += r.chance(1, 2) ? " )" : "; SELECT";
  return t;
}
std::string gen_any(Rng& r, int size) {
  GenOpt o;
  o.family = (int)r.below(FAM_N);
  o.size = (int)r.below(size + 1);
  switch (r.below(12)) {
    case 0: return gen_reject(r);
    case 1: return gen_batch(r, o, 2 + (int)r.below(3), nullptr);
    case 2: return mutate(r, gen_text(r, o));
    case 3: return r.chance(1, 2) || bad.empty() ? gen_reject(r) : r.pick(bad);
    case 4: return good.empty() ? gen_text(r, o) : r.pick(good);
    default: return gen_text(r, o);
  }
}
}  // namespace sim
