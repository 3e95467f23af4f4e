// The state of the process that a library shares with its host.
#pragma once
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace sim {
struct HostState {
  std::vector<std::pair<const char*, uint64_t>> v;
};
enum { HOST_SHARED = 1,  // what other threads would notice at any moment
       HOST_REST = 2,    // what has to be back at the end of the call
       HOST_OWN = 4,     // what belongs to the calling thread
       HOST_TASKS = 8 };
void host_prepare();           // once in a fresh child
void host_habits(int bits);    // what this host has set for the process
void host_habits_thread(int bits);  // and for the calling thread
HostState host_state(int what);
std::string host_diff(const HostState& a, const HostState& b);  // "" if equal
}  // namespace sim
