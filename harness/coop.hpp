// Cooperative control over threads started by the code under test: they run only when the harness lets them, one at
// a time; condition variables, mutexes and clocks are owned by the harness (see coop.cpp).
#pragma once
#include <cstdint>
#include <functional>
#include <semaphore.h>
#include <vector>

namespace coop
{
enum tstate
{
    t_new,
    t_runnable, // notified or freshly resumed
    t_waiting,  // in a condition wait
    t_blocked,  // on a mutex
    t_paused,   // at a harness pause point
    t_done,
    t_dead // parked forever
};
struct thread
{
    sem_t sem;
    tstate st = t_new;
    void* cond = nullptr;
    int64_t deadline = -1; // virtual ns, timed waits
    bool timed_out = false;
    void* owner = nullptr;
    uint64_t steps = 0;
    int idx = 0;
};
extern int64_t vnow_ns;                        // virtual clock
extern uint32_t (*random_value)();             // what std::random_device yields
extern void* new_owner;                        // owner recorded for threads started now
extern std::function<void(const char*)> on_deadlock; // the main thread can never proceed
void enable();
bool enabled();
std::vector<thread*>& threads();
bool can_run(thread* t);  // running it may make progress
void run(thread* t);      // main only: give it control until it yields
thread* self();           // nullptr on the main thread
void pause();             // yield from a controlled thread (no-op on main)
[[noreturn]] void park(); // controlled thread never runs again
} // namespace coop
