// Thread scheduler: threads of a run are real threads that only run while they hold the baton.
// Library code is compiled with the compiler's thread-sanitizer instrumentation, whose run-time entry points
// are defined in sched.cpp: every memory access, atomic operation, lock, file call and clock reading is a
// step at which the seeded scheduler may hand the baton to another thread.
#pragma once
#include "core.hpp"
#include <functional>
#include <vector>
namespace sim
{
struct Sched {
    // plan side ----------------------------------------------------------
    static void gen(Plan& p, Rng& g);                       // draws a strategy
    static void place(Plan& p, Rng& g);                     // race-directed preemptions from the dry run's accesses
    // run side -----------------------------------------------------------
    void run(const Plan& p, const std::vector<std::function<void()>>& threads);   // returns when all have ended
    int64_t now() const;                                    // global step, a clock for histories
    int me() const;                                         // index of the running thread, -1 outside
};
extern Sched sched;
void sched_point();                                         // an explicit step (file calls)
}
