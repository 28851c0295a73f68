// Deterministic scheduler: real threads, exactly one runnable; the seeded choice is made at every seam operation, at every
// basic block of instrumented library code and at lock contention.
#pragma once

#include <functional>
#include <vector>

#include "core.hpp"

namespace sim {

struct Switch {
  std::uint64_t at;  // scheduling point (global count)
  int to;
};

struct SchedConfig {
  std::uint64_t seed = 1;
  std::uint64_t mean_gap = 50;      // average number of points between switches
  bool explicit_plan = false;       // follow plan instead of the PRNG
  std::vector<Switch> plan;
  std::uint64_t max_switches = ~0ULL;
  bool record = false;              // keep which place every scheduling point was
};

struct SchedResult {
  std::vector<Switch> made;
  std::uint64_t points = 0;
  std::uint64_t hash = 0;
  std::vector<std::uint32_t> places;   // with record: basic block or seam operation per point
};

// Runs every body on its own thread; body i runs with the session it installs itself.
SchedResult run_threads(const SchedConfig& cfg, const std::vector<std::function<void()>>& bodies);

// edge coverage of the library (shared between worker processes)
std::uint64_t coverage_edges_total();
std::uint64_t coverage_edges_hit();
void coverage_init();

}  // namespace sim
