#pragma once
#include <functional>
#include <string>
#include <vector>
#include "ops.h"
#include "spec.h"

namespace sim {
// Baseline of a text (computed on demand in a pristine child); nullptr: the baseline run itself failed.
typedef std::function<const Baseline*(const std::string&, bool tokenize)> BaseFn;
// Writes the specs of index i of property `prop`. A pure function of its arguments and the code under test.
std::vector<Spec> gen_specs(const std::string& prop, uint64_t seed, uint64_t index, bool thorough, const BaseFn& base);
extern const char* const kProps[];
extern const int kNProps;
bool needs_tok(const Spec&, int text);
bool needs_parse(const Spec&, int text);
}  // namespace sim
