#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
int main() {
  SQLParserResult r;
  SQLParser::parse("SELECT a_long_column_name,\n another_long_column_name\n FROM\n t WHERE\n x\n=\n)", &r);
  CHECK(!r.isValid());
  CHECK(r.errorLine() == 6);
  CHECK(r.errorColumn() >= 0 && r.errorColumn() <= 1);
}
