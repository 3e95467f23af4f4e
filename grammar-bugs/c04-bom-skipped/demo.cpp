#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
int main() {
  for (const char* t : {"SELECT a\xef\xbb\xbf FROM t", "SELECT a FROM t \xef\xbb\xbf", "SELECT a\xef\xbb\xbf" "b FROM t"}) {
    SQLParserResult r;
    SQLParser::parse(t, &r);
    CHECK(!r.isValid());
  }
}
