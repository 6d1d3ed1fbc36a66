// Simulated threads.  The code under test is compiled with -fsanitize=thread but linked against this
// runtime instead of libtsan: every memory access, atomic operation, lock and one-time initialisation
// calls in here.  "Threads" are fibers of one OS thread; which runs next and for how many accesses is
// decided by sim::choose(), so a seed is one exact interleaving.  A happens-before detector with
// vector clocks judges the accesses of every run.
#pragma once
#include <exception>
#include <functional>
#include <vector>
#include "sim.hpp"

namespace conc {

constexpr int kMaxThreads = 4;                        // besides the main one

// Runs the bodies as concurrent threads to completion.  Exceptions leaving a body are reported as
// failures of the run unless `collect` is given, which then receives the first of them.
void run(const std::vector<std::function<void()>>& bodies, std::exception_ptr* collect = nullptr);

int self();                                           // 0 outside run(), 1.. inside
bool active();                                        // inside run()
void point();                                         // explicit schedule point
bool overlap();                                       // were threads switched while several had work left?
uint64_t clock();                                     // accesses scheduled so far in this run

// Harness bookkeeping: not recorded, not scheduled, not tracked by the allocator.
struct Quiet { Quiet(); ~Quiet(); int saved; };

// The calling thread's n-th allocation from now on fails (0: disarm). Returns via fired().
void arm_alloc(uint64_t nth);
bool alloc_fired();

} // namespace conc
