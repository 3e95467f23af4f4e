#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "SQLParser.h"
#include "util/sqlhelper.h"
using namespace hsql;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
#include <new>
extern "C" void* __libc_malloc(size_t);
static long left = -1;  // allocations until one fails; -1: never
static bool fails() { return left >= 0 && left-- == 0; }
extern "C" void* malloc(size_t n) { return fails() ? nullptr : __libc_malloc(n); }
void* operator new(size_t n) { if (fails()) throw std::bad_alloc(); return __libc_malloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fails() ? nullptr : __libc_malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
// Calls ok(result) for every call that reports success although one of its allocations failed.
template <class F> static void each_failure(const char* sql, F ok) {
  for (int n = 0; n < 400; ++n) {
    SQLParserResult r;
    bool threw = false, ret = false;
    left = n;
    try { ret = SQLParser::parse(sql, &r); } catch (const std::bad_alloc&) { threw = true; }
    const bool done = left >= 0;
    left = -1;
    if (!threw && ret && r.isValid()) CHECK(ok(r));
    if (done) return;
  }
}

int main() {
  for (int n = 0; n < 200; ++n) {
    {
      SQLParserResult r;
      left = n;
      try { SQLParser::parse("SELECT * FROM t WHERE a = ? AND b = 'c'", &r); } catch (const std::bad_alloc&) {}
      left = -1;
    }
    SQLParserResult q;
    SQLParser::parse("SELECT 1 FROM t", &q);
    CHECK(q.isValid());
    CHECK(q.parameters().empty());
  }
}
