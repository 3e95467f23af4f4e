#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
#include <malloc.h>
static size_t used() { return mallinfo2().uordblks; }
static void leakcheck(const std::vector<std::string>& texts) {
  size_t before = 0;
  for (int i = 0; i < 300; ++i) {
    if (i == 100) before = used();
    for (const auto& t : texts) {
      SQLParserResult r;
      SQLParser::parse(t, &r);
    }
  }
  const size_t after = used();
  printf("%zu %zu\\n", before, after);
  CHECK(after < before + 2000);
}

int main() { leakcheck({"WITH a AS (SELECT x FROM t), b AS (SELECT y FROM u) SELECT * FROM a,", "WITH a AS (SELECT x FROM t) UPDATE t"}); }
