#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
int main() {
  std::string sql = "SELECT * FROM t WHERE a = ?";
  for (int i = 1; i < 300; ++i) sql += " OR a = ?";
  SQLParserResult r;
  SQLParser::parse(sql, &r);
  CHECK(r.isValid() && r.parameters().size() == 300);
  for (int i = 0; i < 300; ++i) CHECK(r.parameters()[i]->ival == i);
}
