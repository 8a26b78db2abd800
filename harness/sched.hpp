// Controlled scheduler: between begin() and end() exactly one thread runs at a time; locks, condition variables, joins,
// sleeps and the clock belong to the scheduler, and the running thread may be pre-empted at every synchronisation
// operation, at every instrumented load, store and branch of the code under test, and at point(). All choices are
// draws of the case, so a schedule is generated, shrunk and replayed like any other input.
#pragma once
#include "engine.hpp"
#include <cstdint>
#include <functional>
#include <string>

namespace sched
{
struct options
{
    uint32_t max_preempt = 6;  // generated pre-emptions at memory accesses
    bool sync_preempt = true;  // also generate pre-emptions at synchronisation operations
    bool spurious = false;     // condition waits may wake up without a notification
    uint64_t max_steps = 3000000;
};
void begin(pbt::Case& c, const options& o);
void rearm(uint32_t max_preempt); // draw the pre-emptions at memory accesses anew: set-up is over
void end(); // every other thread must be done
bool active();
void point();                   // possible pre-emption
int self();                     // number of the running thread (0: the one that called begin)
int live();                     // threads not finished, without the caller
int64_t now_ns();               // virtual time
void advance_ns(int64_t dt);    // let virtual time pass
void let_others_run();          // give up control until the other threads are all blocked or done
struct quiet // no pre-emption: the harness's own bookkeeping
{
    quiet();
    ~quiet();
};
uint64_t switches();
uint64_t steps();
std::string trace();            // the last switches
extern std::function<void(const char*)> on_stuck; // nobody can run, or no end in sight
} // namespace sched
