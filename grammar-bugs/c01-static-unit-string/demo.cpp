#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
#include <thread>
#include <atomic>

static std::atomic<int> bad{0};
static void work(const char* unit, DatetimeField f) {
  const std::string sql = std::string("SELECT INTERVAL '3 ") + unit + "' FROM t";
  for (int i = 0; i < 40000 && !bad; ++i) {
    SQLParserResult r;
    SQLParser::parse(sql, &r);
    if (!r.isValid() || ((const SelectStatement*)r.getStatement(0))->selectList->at(0)->datetimeField != f) bad = 1;
  }
}
int main() {
  std::thread a(work, "seconds", kDatetimeSecond), b(work, "years", kDatetimeYear), c(work, "minutes", kDatetimeMinute), d(work, "days", kDatetimeDay);
  a.join(); b.join(); c.join(); d.join();
  CHECK(!bad);
}
