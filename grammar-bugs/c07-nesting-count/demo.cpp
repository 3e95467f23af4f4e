#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
int main() {
  for (int i = 0; i < 60; ++i) {
    SQLParserResult r;
    SQLParser::parse("SELECT ((((a FROM t", &r);
    CHECK(!r.isValid());
  }
  SQLParserResult r;
  SQLParser::parse("SELECT (a) FROM t", &r);
  CHECK(r.isValid());
}
