// The time stamp counter is the simulated clock.
#pragma once
#include <cstdint>
namespace sim { uint64_t clock_read(); }
static inline unsigned long long sim_rdtscp(unsigned int* a) { *a = 0; return sim::clock_read(); }
#define __rdtscp sim_rdtscp
