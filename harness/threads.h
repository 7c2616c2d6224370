// Controlled scheduler: runs small multi-threaded programs against the real code, compiled with
// thread instrumentation, and enumerates every schedule with at most `preemptions` preemptive
// switches. Threads are fibers; a switch can happen before every lock, unlock and atomic access.
// Plain memory accesses are checked with vector clocks (happens-before), so a data race that any of
// the explored schedules contains is found whether or not it changes a result; code that is free of
// such races behaves the same wherever between two synchronisation operations a switch happens.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

#ifndef VERIF_THREADS
#define VERIF_THREADS 4
#endif
constexpr int MaxThreads = VERIF_THREADS;   // thread 0 is the one that sets up and inspects
constexpr int Processors = MaxThreads - 2;  // what std::thread::hardware_concurrency() says: all but thread 0 and one that starts others

struct Program {
    std::function<void()> setup;                                         // builds the shared objects (fresh memory every time)
    std::vector<std::vector<std::function<std::string()>>> threads;      // one list of calls per thread
    std::function<std::string()> final;                                  // observes the end state
    bool linearize = true;     // results must match a sequential order that respects real time
};

struct Result {
    std::string violation;               // empty: none
    uint64_t executions = 0, points = 0, orders = 0;
    std::vector<uint64_t> outcomes;      // hashes of distinct outcomes
    uint64_t maxPoints = 0;
    bool complete = true;                // every schedule within the bound was explored
};

struct Options { int preemptions = 2; uint64_t maxExecutions = 200000;
    bool counters = true;  // also switch before increments and decrements of atomic counters (reference counts)
};

Result explore(Program const& p, Options const& o);

// Inside calls: the current execution is wrong.
void fail(std::string const& what);

void boot();      // once, first thing in main
}  // namespace sched
