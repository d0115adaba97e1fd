// Deterministic two-thread scheduler on the instrumentation of -fsanitize=thread (own run time,
// no ThreadSanitizer): every memory access and function entry of the instrumented code may be a
// switch point.
#pragma once
#include <cstdint>
#include <vector>
namespace sched {
struct Switch {
  int thread; // which thread is preempted
  int kind;   // 0 before its n-th access to contended memory, 1 at its n-th function entry
  uint32_t n;
};
struct Result {
  bool finished = false;
  uint32_t nconf[2] = {0, 0}, nfunc[2] = {0, 0};
  uint32_t switches = 0, steals = 0;
  uint64_t accesses = 0;
};
// contended 8-byte granules
void set_conflicts(const std::vector<uint64_t> &g);
// runs both functions under the schedule, in this process (call it in a fresh child)
Result run(int first, const std::vector<Switch> &sw, bool record, void (*f)(int));
// after a recording run: granules touched by both threads, written by one
std::vector<uint64_t> conflicts();
// after a run: sequence of call sites of a thread
std::vector<uint32_t> sites(int thread);
} // namespace sched
