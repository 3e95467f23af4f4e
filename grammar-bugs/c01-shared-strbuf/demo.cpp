#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
#include <thread>
#include <atomic>

static std::atomic<int> bad{0};
static void work(char c) {
  const std::string lit(300, c), sql = "SELECT '" + lit + "''" + lit + "' FROM t";
  for (int i = 0; i < 20000 && !bad; ++i) {
    SQLParserResult r;
    SQLParser::parse(sql, &r);
    if (!r.isValid() || r.size() != 1) { bad = 1; return; }
    const char* s = ((const SelectStatement*)r.getStatement(0))->selectList->at(0)->name;
    if (!s || lit + "'" + lit != s) bad = 1;
  }
}
int main() {
  std::thread a(work, 'a'), b(work, 'b'), c(work, 'c');
  a.join(); b.join(); c.join();
  CHECK(!bad);
}
