// Controlled scheduler for two real threads.  The library is compiled with -fsanitize=thread but
// linked with sched.cc instead of the TSan runtime: every memory access, atomic and lock of the
// library calls into the scheduler, which alone decides which thread runs.
#pragma once
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace sched {
struct Run {
  bool ok = false;               // the process finished normally
  std::string result[2], after;  // results of the two threads, description of the shared objects afterwards
  std::string error;             // crash, deadlock, race
  std::vector<std::uint32_t> points[2]; // steps at which the thread touches memory both threads touch (one of them writing)
  std::uint64_t steps[2] = {0, 0};
  bool overflowed = false;       // too much memory to watch all of it
  bool grew = false;             // new shared locations were found
};
using Locations = std::set<std::uint64_t>;
/// Runs both bodies in a forked process.  start runs first; at its step switches[0] (before that
/// access) the other thread runs, until its step switches[1], and so on; a thread that ends or
/// blocks hands over.  warm is executed before the threads start.  shared: memory locations known to be touched by both, extended on return.
Run run(int start, const std::vector<std::uint32_t>& switches, const std::function<std::string()>& a, const std::function<std::string()>& b, const std::function<std::string()>& after, Locations& shared, const std::function<void()>& warm = {});
} // namespace sched
