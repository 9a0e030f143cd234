// Scheduler of real threads that pass a baton: only its holder runs.
#pragma once
#include "core.hpp"
#include <algorithm>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>

namespace sim {
constexpr int max_threads = 4;
struct Range { uintptr_t a, b; bool operator<(const Range& o) const { return a < o.a; } };
struct Hot { int n = 0; bool stored = false; };
struct Sched {
    Run* r; int n = 0, running = -1;
    bool done[max_threads] = {};
    sem_t sem[max_threads], main;
    int64_t quantum = 0; int style = 0, budget = 0, hot_budget = 0, hot_rate = 0;
    uint64_t switches = 0, inside = 0, hot_switches = 0; int idle = 0; bool written = false;
    std::vector<Range> shared;                       // objects used by more than one thread
    std::map<uintptr_t, Hot> seen;                   // accesses per hot address
};
// runs body(arg, i) in thread i of s.n threads under the scheduler
void run_threads(Sched& s, void (*body)(void*, int), void* arg);
} // namespace sim
