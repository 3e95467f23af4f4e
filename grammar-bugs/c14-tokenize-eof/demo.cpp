#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
#include <sys/resource.h>
int main() {
  struct rlimit l = {256u << 20, 256u << 20};
  setrlimit(RLIMIT_AS, &l);
  struct rlimit c = {20, 20};
  setrlimit(RLIMIT_CPU, &c);
  freopen("/dev/null", "w", stderr);
  std::vector<int16_t> tokens;
  CHECK(SQLParser::tokenize("SELECT 'abc", &tokens));
  CHECK(tokens.size() == 2);
}
