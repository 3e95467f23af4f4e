#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
int main() {
  SQLParserResult a, b;
  SQLParser::parse("SELECT 'never closed", &a);
  CHECK(!a.isValid());
  SQLParser::parse("SELECT 'x' FROM t", &b);
  CHECK(b.isValid());
  CHECK(!strcmp(((const SelectStatement*)b.getStatement(0))->selectList->at(0)->name, "x"));
}
