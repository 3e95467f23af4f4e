#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
int main() {
  const char* sql = "SELECT a FROM t ~ WHERE b = 1";
  SQLParserResult a, b;
  SQLParser::parse(sql, &a);
  CHECK(!a.isValid());
  FILE* full = fopen("/dev/full", "w");
  setvbuf(full, nullptr, _IONBF, 0);
  FILE* old = stderr;
  stderr = full;
  SQLParser::parse(sql, &b);
  stderr = old;
  CHECK(!b.isValid());
}
