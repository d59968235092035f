// A controlled scheduler for real pthread code.
//
// The functions of the pthread API the code under test reaches (directly, via
// std:: or boost::) are defined here and so replace libc's for the whole
// process, shared libraries included.  While an exploration runs, exactly one
// managed thread executes at a time; at every synchronization operation the
// explorer picks who goes on.  All schedules with at most `bound` deviations
// (preemptions, timeouts taken early, spurious wake-ups) are enumerated by
// depth-first search with replay.
//
// Code compiled with -fsanitize=thread (and linked without its runtime) also
// reports its memory accesses: accesses to watched regions are checked for
// data races with vector clocks.
//
// Link vsched.cpp (never instrumented) with -rdynamic -ldl.
#ifndef VSCHED_HPP
#define VSCHED_HPP
#include "vmc.hpp"
namespace vsched {
struct Result { uint64_t executions = 0, pointsTotal = 0, maxPoints = 0; bool capped = false; };
// Enumerates every schedule of `body` with at most `bound` deviations.
// check() runs after each execution (scheduler off).
Result explore(const std::string& name, int bound, const std::function<void()>& body,
               const std::function<void()>& check, uint64_t cap = 2000000);
void warm(const std::function<void()>& body);  // once, default schedule: lets lazily made statics be made
void point();                 // an extra scheduling point
void yield();                 // lets every other thread go first
void watch(const void* p, size_t n, const char* name);  // race detection in a memory region (this execution)
// Also count as a deviation every choice at a blocking point other than the
// next enabled thread in round-robin order (delay bounding).
void delayBounding(bool on);
void spurious(bool on);       // condition waits may wake spuriously (costs a deviation)
void earlyTimeouts(bool on);  // timed waits may time out while others can run (costs a deviation)
void stepLimit(int n);
std::string raceFound();      // empty, or a description of the data race of the last execution
}
#endif
