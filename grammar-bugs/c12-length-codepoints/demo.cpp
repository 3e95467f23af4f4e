#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
int main() {
  const std::string sql = "SELECT '\xc3\xa4\xc3\xb6' FROM t;DELETE FROM u";
  SQLParserResult r;
  SQLParser::parse(sql, &r);
  CHECK(r.isValid() && r.size() == 2);
  const size_t n = r.getStatement(0)->stringLength;
  SQLParserResult a, b;
  SQLParser::parse(sql.substr(0, n), &a);
  SQLParser::parse(sql.substr(n), &b);
  CHECK(a.isValid() && a.size() == 1 && b.isValid() && b.size() == 1);
}
