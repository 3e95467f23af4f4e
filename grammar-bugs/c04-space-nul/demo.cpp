#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
int main() {
  SQLParserResult r;
  SQLParser::parse(std::string("SELECT a FROM t\0 WHERE b = 1", 28), &r);
  CHECK(!r.isValid());
}
