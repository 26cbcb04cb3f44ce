// Controlled scheduler: the library, compiled with thread sanitizer hooks that
// end up here, runs on fibers. Before every access to memory that more than one
// thread uses (one of them writing), and at every lock operation, the scheduler
// decides which thread continues. explore() executes every schedule with at
// most the given number of preemptions.
#pragma once
#include "vf.hpp"
#include <functional>
#include <vector>
#include <string>

namespace sched {
enum { MAXT = 4 };
struct Scenario {
    std::string name;
    std::function<void()> setup;                 // once, in the main thread; the state it leaves is restored before every schedule
    std::vector<std::function<void()>> threads;
    std::function<void()> reset;                 // harness variables, before every schedule
    std::function<void()> check;                 // main thread, after the schedule; destroys everything
};
struct Result { uint64_t schedules, points, shared, maxpoints, restarts; bool complete; };
// -1 preemptions: unbounded. Stops early (complete=false) after max schedules.
Result explore(const Scenario& s, int preemptions, uint64_t max = ~0ull);
void* arena_alloc(size_t n);                     // memory of the harness that threads share
int64_t live();
uint64_t hash_state();
}
