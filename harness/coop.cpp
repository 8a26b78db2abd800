#include "coop.hpp"
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <memory>
#include <pthread.h>
#include <random>
#include <thread>
#include <time.h>
#include <unistd.h>

namespace coop
{
int64_t vnow_ns = 1000000000ll * 1000000;
uint32_t (*random_value)() = nullptr;
void* new_owner = nullptr;
std::function<void(const char*)> on_deadlock;
static bool g_on = false;
static sem_t g_main;
static std::vector<thread*> g_threads;
static __thread thread* t_self = nullptr;
static __thread bool t_is_main = false;

void enable()
{
    g_on = true;
    t_is_main = true;
    sem_init(&g_main, 0, 0);
}
bool enabled() { return g_on; }
std::vector<thread*>& threads() { return g_threads; }
thread* self() { return t_self; }

static void semwait(sem_t* s)
{
    while (sem_wait(s) != 0 && errno == EINTR) {}
}

bool can_run(thread* t)
{
    if (t->st == t_new || t->st == t_runnable || t->st == t_blocked || t->st == t_paused) return true;
    return t->st == t_waiting && t->deadline >= 0 && t->deadline <= vnow_ns;
}

void run(thread* t)
{
    if (t->st == t_waiting)
    {
        t->timed_out = true; // timed wait whose deadline passed
        t->cond = nullptr;
        t->deadline = -1;
    }
    sem_post(&t->sem);
    semwait(&g_main);
}

static void yield_as(tstate st)
{
    thread* t = t_self;
    t->st = st;
    if (st != t_blocked) t->steps++;
    sem_post(&g_main);
    semwait(&t->sem);
    t->st = t_runnable;
    if (st == t_paused) t->steps++; // goes on
}

void pause()
{
    if (t_self) yield_as(t_paused);
}

void park()
{
    t_self->st = t_dead;
    sem_post(&g_main);
    for (;;) ::pause();
}

// main thread cannot proceed: let the other threads run; false if none of them can make progress
static bool run_others()
{
    bool progress = false;
    for (size_t i = 0; i < g_threads.size(); ++i)
    {
        thread* t = g_threads[i];
        if (!can_run(t)) continue;
        uint64_t before = t->steps;
        run(t);
        if (t->steps != before || t->st == t_done) progress = true;
    }
    return progress;
}

static void deadlock(const char* what)
{
    if (on_deadlock) on_deadlock(what);
    fprintf(stderr, "coop: deadlock of the main thread in %s\n", what);
    _exit(70);
}

struct starter
{
    thread* t;
    std::function<void()> body;
};
static void* entry(void* p)
{
    std::unique_ptr<starter> a((starter*)p);
    t_self = a->t;
    semwait(&t_self->sem);
    t_self->st = t_runnable;
    a->body();
    a->body = nullptr;
    t_self->steps++;
    t_self->st = t_done;
    sem_post(&g_main);
    return nullptr;
}

template <typename F>
static F real(const char* name)
{
    return (F)dlsym(RTLD_NEXT, name);
}

static int lock_loop(int (*trylock)(void*), void* m, const char* what)
{
    for (;;)
    {
        int rc = trylock(m);
        if (rc != EBUSY)
        {
            if (t_self) t_self->steps++;
            return rc;
        }
        if (t_self)
            yield_as(t_blocked);
        else if (!run_others())
            deadlock(what);
    }
}
static inline bool controlled() { return g_on && (t_self || t_is_main); }

static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
    if (t_self)
    {
        t_self->cond = c;
        t_self->deadline = deadline;
        t_self->timed_out = false;
        pthread_mutex_unlock(m);
        yield_as(t_waiting);
        bool to = t_self->timed_out;
        pthread_mutex_lock(m);
        return to ? ETIMEDOUT : 0;
    }
    // main thread: a pseudo waiter
    static thread mainw;
    mainw.cond = c;
    mainw.st = t_waiting;
    mainw.deadline = deadline;
    g_threads.push_back(&mainw);
    mainw.idx = -1;
    pthread_mutex_unlock(m);
    int rc = 0;
    while (mainw.st == t_waiting)
    {
        bool progress = false;
        for (size_t i = 0; i < g_threads.size(); ++i)
        {
            thread* t = g_threads[i];
            if (t == &mainw || !can_run(t)) continue;
            uint64_t before = t->steps;
            run(t);
            if (t->steps != before || t->st == t_done) progress = true;
            if (mainw.st != t_waiting) break;
        }
        if (!progress && mainw.st == t_waiting)
        {
            if (deadline >= 0)
            {
                if (deadline > vnow_ns) vnow_ns = deadline;
                rc = ETIMEDOUT;
                break;
            }
            deadlock("condition wait");
        }
    }
    mainw.st = t_done;
    for (size_t i = 0; i < g_threads.size(); ++i)
        if (g_threads[i] == &mainw)
        {
            g_threads.erase(g_threads.begin() + (long)i);
            break;
        }
    pthread_mutex_lock(m);
    return rc;
}

static int64_t ts_ns(const timespec* t) { return (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec; }
} // namespace coop

using namespace coop;
extern "C"
{
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
        static auto tr = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
        if (!controlled()) return r(m);
        return lock_loop((int (*)(void*))tr, m, "mutex lock");
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m)
    {
        static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
        static auto tr = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
        if (!controlled()) return r(m);
        return lock_loop((int (*)(void*))tr, m, "shared lock");
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m)
    {
        static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
        static auto tr = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
        if (!controlled()) return r(m);
        return lock_loop((int (*)(void*))tr, m, "exclusive lock");
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
        if (!controlled()) return r(c, m);
        return cond_wait_impl(c, m, -1);
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
    {
        static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait");
        if (!controlled()) return r(c, m, ts);
        return cond_wait_impl(c, m, ts_ns(ts));
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* ts)
    {
        static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait");
        if (!controlled()) return r(c, m, id, ts);
        return cond_wait_impl(c, m, ts_ns(ts));
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
        if (!controlled()) return r(c);
        for (thread* t : g_threads)
            if (t->st == t_waiting && t->cond == c)
            {
                t->cond = nullptr;
                t->deadline = -1;
                t->st = t_runnable;
                break;
            }
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
        if (!controlled()) return r(c);
        for (thread* t : g_threads)
            if (t->st == t_waiting && t->cond == c)
            {
                t->cond = nullptr;
                t->deadline = -1;
                t->st = t_runnable;
            }
        return 0;
    }
}

namespace std
{
void thread::_M_start_thread(_State_ptr state, void (*)())
{
    if (!g_on)
    {
        // not used: the harness starts its own threads with pthread_create
        abort();
    }
    coop::thread* t = new coop::thread;
    sem_init(&t->sem, 0, 0);
    t->owner = coop::new_owner;
    t->idx = (int)g_threads.size();
    std::shared_ptr<_State> st(state.release());
    auto* a = new coop::starter{t, [st]() { st->_M_run(); }};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 * 1024);
    pthread_t id;
    int rc = pthread_create(&id, &at, &coop::entry, a);
    pthread_attr_destroy(&at);
    if (rc)
    {
        perror("pthread_create");
        _exit(70);
    }
    _M_id = thread::id(id);
    g_threads.push_back(t);
}
namespace chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept { return time_point(duration(coop::vnow_ns)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(coop::vnow_ns)); }
} // namespace _V2
} // namespace chrono
} // namespace std

std::random_device::result_type std::random_device::_M_getval()
{
    return coop::random_value ? coop::random_value() : 12345u;
}
