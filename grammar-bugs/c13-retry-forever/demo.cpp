#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
#include <sys/resource.h>
int main() {
  struct rlimit c = {20, 20};
  setrlimit(RLIMIT_CPU, &c);
  FILE* full = fopen("/dev/full", "w");
  setvbuf(full, nullptr, _IONBF, 0);
  stderr = full;
  SQLParserResult r;
  SQLParser::parse("SELECT 'abc", &r);
  CHECK(!r.isValid());
}
