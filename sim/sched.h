// Scheduled mode: several caller threads, one running at a time, preempted only where the plan says.
#pragma once
#include "core.h"
#include <functional>

namespace sim {
// Runs body(1) .. body(n) on n simulated threads; returns when all have finished.  `first` runs first.
// Switches happen inside library windows at the events named by the lines' !preempt faults
// (value = event * 16 + thread), when a thread blocks, and when it ends.
void run_threads(int n, int first, const std::function<void(int)>& body);
int self();                       // simulated thread number (0 = main)
u64 tick();                       // global event sequence number
void set_clock(u64 mono_ns, long long wall_s);
void advance_ns(u64 ns);          // both clocks
void jump_wall(long long s);      // wall clock only
const std::vector<long long>& wall_history();   // every value (s) the wall clock has had, in order
u64 mono_now();
// Generator: maybe add preemptions to a line.
void arm_preempt(Rng& r, Line& l, int nthreads, int percent, int max_per_line, int logmax);
void ignore_range(const void* p, size_t n);
}  // namespace sim
