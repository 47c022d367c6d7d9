#pragma once
#include <cstdint>
extern int rt_threads;      // team size of the next parallel regions
extern uint64_t rt_seed;    // decides the split of loops and start delays
extern long rt_regions;
