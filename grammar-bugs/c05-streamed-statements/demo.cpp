#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
int main() {
  SQLParserResult r;
  std::string ok;
  for (int i = 0; i < 20; ++i) ok += "DELETE FROM t" + std::to_string(i) + ";";
  SQLParser::parse(ok, &r);
  CHECK(r.isValid() && r.size() == 20);
  for (int i = 0; i < 20; ++i) CHECK(((const DeleteStatement*)r.getStatement(i))->tableName == "t" + std::to_string(i));
  SQLParserResult q;
  SQLParser::parse(ok + "DELETE FROM;", &q);
  CHECK(!q.isValid());
  CHECK(q.size() == 0);
}
