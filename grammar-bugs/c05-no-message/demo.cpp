#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
int main() {
  SQLParserResult r;
  SQLParser::parse("SELECT INTERVAL 'x3' DAY FROM t", &r);
  CHECK(!r.isValid());
  CHECK(r.errorMsg() && r.errorLine() >= 0);
}
