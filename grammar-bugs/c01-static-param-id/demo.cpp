#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
#include <thread>
#include <atomic>

static std::atomic<int> bad{0};
static void work(int n) {
  std::string sql = "SELECT * FROM t WHERE a = ?";
  for (int i = 1; i < n; ++i) sql += " OR a = ?";
  for (int i = 0; i < 20000 && !bad; ++i) {
    SQLParserResult r;
    SQLParser::parse(sql, &r);
    if (!r.isValid() || (int)r.parameters().size() != n) { bad = 1; return; }
    for (int k = 0; k < n; ++k)
      if (r.parameters()[k]->ival != k) bad = 1;
  }
}
int main() {
  std::vector<std::thread> t;
  for (int n : {30, 31, 40, 7}) t.emplace_back(work, n);
  for (auto& x : t) x.join();
  CHECK(!bad);
}
