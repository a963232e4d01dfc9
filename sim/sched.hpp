#pragma once
#include <cstdint>
// Installs the seeded scheduler: from the end of elaboration on, whenever
// several clocks tick at the same instant, the order in which the groups of
// processes belonging to those clocks run is drawn from a PRNG (seed), or is
// left as the kernel has it (seed == 0).  Must be called before sc_start.
void dst_install_scheduler(uint64_t seed, bool by_period = false);
struct dst_sched_stats {
  uint64_t coincident = 0; // evaluate phases with >1 clock group
  uint64_t permuted = 0;   // of which the drawn order differed from the default
  uint64_t sig = 1469598103934665603ull; // hash over all drawn orders
};
extern dst_sched_stats dst_stats;
