#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
#include <cerrno>
int main() {
  SQLParserResult a, b;
  errno = 0;
  SQLParser::parse("SELECT 12 FROM t", &a);
  CHECK(a.isValid());
  strtol("99999999999999999999", nullptr, 10);
  SQLParser::parse("SELECT 12 FROM t", &b);
  CHECK(b.isValid());
}
