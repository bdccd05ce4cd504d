// Exhaustive explorer: runs every index of every registered family of cases against the real
// library, in forked workers, and reports what was covered and every violation it could confirm.
//
// A family is a finite space of cases given by an injective decoding of 0..n-1.  Workers claim
// contiguous chunks of indices from a shared counter, so the whole space is covered exactly once
// whatever the timing.  A violation is re-executed (alone, then from the start of its chunk, then
// with everything its worker had executed before) in a fresh process before it is reported.
#pragma once
#include <cstdint>
#include <exception>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

using u64 = std::uint64_t;

struct Violation : std::exception {
  std::string msg;
  explicit Violation(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
[[noreturn]] inline void fail(std::string m) { throw Violation(std::move(m)); }

/// Units of measure the library is driven in: a case of the (small, dyadic) alphabet is handed to it with
/// times t*ts + to and values v*vs + vo, and its results are converted back.  All factors are powers of
/// two, so a correct library computes the same digits in every unit; one that treats "almost equal" times
/// or values as equal does not.  Families registered inside each_units run under those units.
struct Units { std::string name; double ts = 1, vs = 1, to = 0, vo = 0, loose = 1; /* tolerance factor */ };
extern Units units;
void each_units(const std::vector<Units>& us, const std::function<void()>& register_families);

/// Registers a family.  run(i) returns false if index i decodes to no case (not counted).
void family(std::string name, u64 n, std::function<bool(u64)> run, std::string bounds = "");

/// True when a single case is being re-executed and should describe itself through desc().
extern bool verbose;
void desc(const std::string& s);

/// Coverage accounting.
void state(u64 hash);                 // canonical hash of a configuration / reached state
void outcome(u64 hash);               // canonical hash of an observed result
void transition(u64 n = 1);           // library calls whose effect was compared with the model
void trace(u64 n = 1);                // complete executions compared with the model
void heartbeat();                     // for long single cases (searches)
void info(const std::string& key, u64 add); // additional named counters

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
  return h;
}
inline u64 hstr(const std::string& s, u64 h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return mix(h, s.size());
}

bool thorough();
/// Scratch directory of this run (created by the driver, removed by it).
std::string scratch();

/// Implemented by each harness: registers its families.
} // namespace mc
void mc_register();
