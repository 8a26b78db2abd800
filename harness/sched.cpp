#include "sched.hpp"
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <dlfcn.h>
#include <map>
#include <unordered_map>
#include <memory>
#include <pthread.h>
#include <random>
#include <semaphore.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace sched
{
std::function<void(const char*)> on_stuck;

enum wait_kind
{
    w_none,
    w_mutex,
    w_rd,
    w_wr,
    w_cond,
    w_join,
    w_sleep,
    w_idle // until the others are blocked
};
struct thr
{
    sem_t sem;
    int id = 0;
    bool done = false, woken = false, timed_out = false, joined = false;
    wait_kind wk = w_none;
    void* obj = nullptr;
    int64_t deadline = -1;
    pthread_t real{};
};
struct lk
{
    thr* owner = nullptr;
    int depth = 0;
    std::map<thr*, int> readers;
};

static pbt::Case* g_c;
static options g_o;
static bool g_on = false;
static thr g_main;
static std::vector<thr*> g_t;
static std::map<void*, lk>* g_l;
static int64_t g_now = 1000000000ll * 1000000;
static uint64_t g_steps, g_switches, g_last_switch, g_countdown, g_left, g_sync_den;
static std::deque<std::string>* g_trace;
static __thread thr* t_self = nullptr;
static __thread int t_busy = 0;

struct busy
{
    busy() { ++t_busy; }
    ~busy() { --t_busy; }
};

quiet::quiet() { ++t_busy; }
quiet::~quiet() { --t_busy; }
bool active() { return g_on; }
int self() { return t_self ? t_self->id : -1; }
int64_t now_ns() { return g_now; }
void advance_ns(int64_t dt) { g_now += dt; }
uint64_t switches() { return g_switches; }
uint64_t steps() { return g_steps; }
std::string trace()
{
    std::string s;
    if (g_trace)
        for (auto& x : *g_trace) s += x + " ";
    return s;
}
int live()
{
    int n = 0;
    for (thr* t : g_t)
        if (!t->done && t != t_self) ++n;
    return n;
}

static void semwait(sem_t* s)
{
    while (sem_wait(s) != 0 && errno == EINTR) {}
}

// Accesses to memory that another thread used and somebody wrote: pre-emptions can be generated at these alone
struct use
{
    int by;
    bool written, shared;
};
static std::unordered_map<uintptr_t, use>* g_uses;
static uint64_t g_offset;
static void next_countdown()
{
    if (!g_left)
    {
        g_countdown = 0;
        return;
    }
    --g_left;
    if (g_uses)
    {
        switch (g_c->draw(4))
        {
            case 0: g_countdown = 1 + g_c->draw(300); break;
            case 1: g_countdown = 1 + g_c->draw(80); break;
            case 2: g_countdown = 1 + g_c->draw(25); break;
            default: g_countdown = 1 + g_c->draw(6);
        }
        return;
    }
    switch (g_c->draw(4))
    {
        case 0: g_countdown = 1 + g_c->draw(3000); break;
        case 1: g_countdown = 1 + g_c->draw(400); break;
        case 2: g_countdown = 1 + g_c->draw(60); break;
        default: g_countdown = 1 + g_c->draw(12);
    }
}

void begin(pbt::Case& c, const options& o)
{
    g_c = &c;
    g_o = o;
    static bool once = (sem_init(&g_main.sem, 0, 0), true);
    (void)once;
    g_t.clear();
    g_t.push_back(&g_main);
    g_main.wk = w_none;
    g_main.done = false;
    g_main.id = 0;
    delete g_l;
    g_l = new std::map<void*, lk>;
    delete g_trace;
    g_trace = new std::deque<std::string>;
    g_steps = g_switches = g_last_switch = 0;
    g_left = o.max_preempt ? c.draw(o.max_preempt + 1) : 0;
    static const uint64_t dens[] = {0, 16, 5, 2};
    g_sync_den = o.sync_preempt ? dens[c.draw(4)] : 0;
    next_countdown();
    delete g_uses;
    g_uses = nullptr;
    g_offset = 0;
    t_self = &g_main;
    t_busy = 0;
    g_on = true;
}
void rearm(uint32_t max_preempt)
{
    busy b;
    delete g_uses;
    g_uses = nullptr;
    if (g_c->draw(2)) g_uses = new std::unordered_map<uintptr_t, use>;
    g_offset = 0;
    g_left = g_c->draw(max_preempt + 1);
    next_countdown();
}
void end()
{
    g_on = false;
    for (size_t i = 1; i < g_t.size(); ++i)
    {
        if (!g_t[i]->joined) pthread_join(g_t[i]->real, nullptr);
        sem_destroy(&g_t[i]->sem);
        delete g_t[i];
    }
    g_t.clear();
    t_self = nullptr;
}

static bool lock_free_for(void* m, thr* t, wait_kind k)
{
    auto it = g_l->find(m);
    if (it == g_l->end()) return true;
    lk& l = it->second;
    if (k == w_mutex) return !l.owner;
    if (k == w_rd) return !l.owner;
    (void)t;
    return !l.owner && l.readers.empty();
}
static bool enabled(thr* t)
{
    if (t->done) return false;
    switch (t->wk)
    {
        case w_none: return true;
        case w_mutex:
        case w_rd:
        case w_wr: return lock_free_for(t->obj, t, t->wk);
        case w_cond: return t->woken || (t->deadline >= 0 && t->deadline <= g_now);
        case w_join: return ((thr*)t->obj)->done;
        case w_sleep: return t->deadline <= g_now;
        case w_idle: return false;
    }
    return false;
}

static const char* const kind_name[] = {"runs", "mutex", "rdlock", "wrlock", "cond", "join", "sleep", "idle"};
static void stuck(const char* what)
{
    std::string s = what;
    for (thr* t : g_t)
        if (!t->done) s += std::string("; thread ") + std::to_string(t->id) + " waits for " + kind_name[t->wk];
    g_on = false;
    if (on_stuck) on_stuck(s.c_str());
    fprintf(stderr, "sched: %s\n", s.c_str());
    _exit(70);
}

// choose who runs next; `me` may be among them
static thr* choose(bool others_only)
{
    for (;;)
    {
        std::vector<thr*> e;
        for (thr* t : g_t)
            if (!(others_only && t == t_self) && enabled(t)) e.push_back(t);
        if (e.empty() && others_only) return nullptr;
        if (!e.empty()) return e[e.size() == 1 ? 0 : g_c->draw((uint32_t)e.size())];
        for (thr* t : g_t)
            if (!t->done && t->wk == w_idle) return t;
        // nobody: let time pass until the first timed wait ends
        int64_t d = -1;
        for (thr* t : g_t)
            if (!t->done && (t->wk == w_cond || t->wk == w_sleep) && t->deadline >= 0 && (d < 0 || t->deadline < d)) d = t->deadline;
        if (d < 0) stuck("deadlock: no thread can run");
        if (d > g_now) g_now = d;
    }
}

static void hand_over(thr* t)
{
    thr* me = t_self;
    if (t == me) return;
    ++g_switches;
    g_last_switch = g_steps;
    g_trace->push_back(std::to_string(me->id) + ">" + std::to_string(t->id) + "@" + std::to_string(g_steps));
    if (g_trace->size() > 60) g_trace->pop_front();
    bool gone = me->done;
    sem_post(&t->sem);
    if (!gone) semwait(&me->sem);
}

static void maybe_spurious(thr* t)
{
    (void)t;
    if (!g_o.spurious) return;
    for (thr* w : g_t)
        if (!w->done && w->wk == w_cond && !w->woken && g_c->draw(12) == 11) w->woken = true;
}

static inline void step()
{
    if (++g_steps > g_o.max_steps) stuck("no end in sight");
}
// a plain pre-emption point
static bool due(const void* p, bool store)
{
    if (!g_uses) return g_countdown && --g_countdown == 0;
    if (g_offset) return --g_offset == 0;
    if (!p || !g_countdown) return false;
    busy b;
    use& u = g_uses->emplace((uintptr_t)p >> 3, use{t_self->id, false, false}).first->second;
    u.written |= store;
    if (u.by != t_self->id) u.shared = true;
    u.by = t_self->id;
    if (!u.shared || !u.written || --g_countdown) return false;
    g_offset = g_c->draw(4); // now, or a little later
    return g_offset == 0;
}
static void mem_point(const void* p = nullptr, bool store = false)
{
    step();
    bool force = g_steps - g_last_switch > 100000;
    if (due(p, store))
    {
        busy b;
        next_countdown();
        if (thr* t = choose(true)) hand_over(t);
    }
    else if (force)
    {
        busy b;
        g_last_switch = g_steps;
        if (thr* t = choose(true)) hand_over(t);
    }
}
static void sync_point()
{
    step();
    busy b;
    if (g_sync_den && g_c->draw((uint32_t)g_sync_den) == g_sync_den - 1)
    {
        maybe_spurious(t_self);
        if (thr* t = choose(true)) hand_over(t);
    }
}
void point()
{
    if (g_on && t_self && !t_busy) mem_point();
}
static void access(const void* p, bool store)
{
    if (g_on && t_self && !t_busy) mem_point(p, store);
}

// block until the wait is over
static void block(wait_kind k, void* obj, int64_t deadline = -1)
{
    busy b;
    thr* me = t_self;
    me->wk = k;
    me->obj = obj;
    me->deadline = deadline;
    me->woken = me->timed_out = false;
    maybe_spurious(me);
    thr* t = choose(false);
    hand_over(t);
    if (me->wk == w_cond && !me->woken) me->timed_out = true;
    me->wk = w_none;
}
void let_others_run()
{
    if (g_on && t_self) block(w_idle, nullptr);
}

static inline bool mine() { return g_on && t_self && !t_busy; }

static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static int do_lock(pthread_mutex_t* m)
{
    sync_point();
    lk* l = &(*g_l)[m];
    if (l->owner == t_self && is_recursive(m))
    {
        ++l->depth;
        return 0;
    }
    while (!lock_free_for(m, t_self, w_mutex)) block(w_mutex, m);
    busy b;
    l = &(*g_l)[m];
    l->owner = t_self;
    l->depth = 1;
    return 0;
}
static int do_try(pthread_mutex_t* m)
{
    sync_point();
    busy b;
    lk* l = &(*g_l)[m];
    if (l->owner == t_self && is_recursive(m))
    {
        ++l->depth;
        return 0;
    }
    if (l->owner) return EBUSY;
    l->owner = t_self;
    l->depth = 1;
    return 0;
}
static void release(pthread_mutex_t* m)
{
    busy b;
    lk& l = (*g_l)[m];
    if (l.owner == t_self && --l.depth == 0) l.owner = nullptr;
}
static int do_unlock(pthread_mutex_t* m)
{
    release(m);
    sync_point();
    return 0;
}
static int do_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
    sync_point();
    release(m);
    block(w_cond, c, deadline);
    bool to = t_self->timed_out;
    while (!lock_free_for(m, t_self, w_mutex)) block(w_mutex, m);
    busy b;
    lk& l = (*g_l)[m];
    l.owner = t_self;
    l.depth = 1;
    return to ? ETIMEDOUT : 0;
}
static int do_signal(pthread_cond_t* c, bool all)
{
    sync_point();
    {
        busy b;
        std::vector<thr*> w;
        for (thr* t : g_t)
            if (!t->done && t->wk == w_cond && t->obj == c && !t->woken) w.push_back(t);
        if (!w.empty())
        {
            if (all)
                for (thr* t : w) t->woken = true;
            else
                w[w.size() == 1 ? 0 : g_c->draw((uint32_t)w.size())]->woken = true;
        }
    }
    sync_point();
    return 0;
}
static int do_rw(void* m, bool write, bool wait)
{
    sync_point();
    while (!lock_free_for(m, t_self, write ? w_wr : w_rd))
    {
        if (!wait) return EBUSY;
        block(write ? w_wr : w_rd, m);
    }
    busy b;
    lk& l = (*g_l)[m];
    if (write)
        l.owner = t_self;
    else
        ++l.readers[t_self];
    return 0;
}
static int do_rwunlock(void* m)
{
    {
        busy b;
        lk& l = (*g_l)[m];
        if (l.owner == t_self)
            l.owner = nullptr;
        else
        {
            auto it = l.readers.find(t_self);
            if (it != l.readers.end() && --it->second == 0) l.readers.erase(it);
        }
    }
    sync_point();
    return 0;
}

struct starter
{
    thr* t;
    std::function<void()> body;
};
static void* entry(void* p)
{
    starter* a = (starter*)p;
    t_self = a->t;
    t_busy = 0;
    semwait(&t_self->sem);
    a->body();
    {
        busy b;
        delete a;
        t_self->done = true;
        thr* t = choose(false);
        hand_over(t);
    }
    return nullptr;
}
static int64_t ts_ns(const timespec* t) { return (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec; }

template <typename F>
static F real(const char* name)
{
    return (F)dlsym(RTLD_NEXT, name);
}
} // namespace sched

using namespace sched;
#define REAL(name, type) static auto r = real<type>(#name)
extern "C"
{
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (mine()) return do_lock(m);
        REAL(pthread_mutex_lock, int (*)(pthread_mutex_t*));
        return r(m);
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (mine()) return do_try(m);
        REAL(pthread_mutex_trylock, int (*)(pthread_mutex_t*));
        return r(m);
    }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (mine()) return do_unlock(m);
        REAL(pthread_mutex_unlock, int (*)(pthread_mutex_t*));
        return r(m);
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m)
    {
        if (mine()) return do_rw(m, false, true);
        REAL(pthread_rwlock_rdlock, int (*)(pthread_rwlock_t*));
        return r(m);
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m)
    {
        if (mine()) return do_rw(m, true, true);
        REAL(pthread_rwlock_wrlock, int (*)(pthread_rwlock_t*));
        return r(m);
    }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
    {
        if (mine()) return do_rw(m, false, false);
        REAL(pthread_rwlock_tryrdlock, int (*)(pthread_rwlock_t*));
        return r(m);
    }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
    {
        if (mine()) return do_rw(m, true, false);
        REAL(pthread_rwlock_trywrlock, int (*)(pthread_rwlock_t*));
        return r(m);
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* m)
    {
        if (mine()) return do_rwunlock(m);
        REAL(pthread_rwlock_unlock, int (*)(pthread_rwlock_t*));
        return r(m);
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (mine()) return do_wait(c, m, -1);
        REAL(pthread_cond_wait, int (*)(pthread_cond_t*, pthread_mutex_t*));
        return r(c, m);
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
    {
        if (mine()) return do_wait(c, m, ts_ns(ts));
        REAL(pthread_cond_timedwait, int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*));
        return r(c, m, ts);
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* ts)
    {
        if (mine()) return do_wait(c, m, ts_ns(ts));
        REAL(pthread_cond_clockwait, int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*));
        return r(c, m, id, ts);
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        if (mine()) return do_signal(c, false);
        REAL(pthread_cond_signal, int (*)(pthread_cond_t*));
        return r(c);
    }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        if (mine()) return do_signal(c, true);
        REAL(pthread_cond_broadcast, int (*)(pthread_cond_t*));
        return r(c);
    }
    int nanosleep(const timespec* ts, timespec* rem)
    {
        if (mine())
        {
            block(w_sleep, nullptr, g_now + ts_ns(ts));
            return 0;
        }
        REAL(nanosleep, int (*)(const timespec*, timespec*));
        return r(ts, rem);
    }
    int clock_nanosleep(clockid_t id, int flags, const timespec* ts, timespec* rem)
    {
        if (mine())
        {
            block(w_sleep, nullptr, (flags & TIMER_ABSTIME) ? ts_ns(ts) : g_now + ts_ns(ts));
            return 0;
        }
        REAL(clock_nanosleep, int (*)(clockid_t, int, const timespec*, timespec*));
        return r(id, flags, ts, rem);
    }
    int sched_yield(void)
    {
        if (mine())
        {
            busy b;
            step();
            if (thr* t = choose(true)) hand_over(t);
            return 0;
        }
        REAL(sched_yield, int (*)(void));
        return r();
    }
    // instrumentation of the code under test
    void __sanitizer_cov_trace_pc(void) { point(); }
    void __sanitizer_cov_load1(uint8_t* p) { access(p, false); }
    void __sanitizer_cov_load2(uint16_t* p) { access(p, false); }
    void __sanitizer_cov_load4(uint32_t* p) { access(p, false); }
    void __sanitizer_cov_load8(uint64_t* p) { access(p, false); }
    void __sanitizer_cov_load16(void* p) { access(p, false); }
    void __sanitizer_cov_store1(uint8_t* p) { access(p, true); }
    void __sanitizer_cov_store2(uint16_t* p) { access(p, true); }
    void __sanitizer_cov_store4(uint32_t* p) { access(p, true); }
    void __sanitizer_cov_store8(uint64_t* p) { access(p, true); }
    void __sanitizer_cov_store16(void* p) { access(p, true); }
}

namespace std
{
void thread::_M_start_thread(_State_ptr state, void (*)())
{
    std::shared_ptr<_State> st(state.release());
    if (!g_on || !t_self)
    {
        fprintf(stderr, "sched: thread started outside a controlled run\n");
        _exit(70);
    }
    thr* t = new thr;
    {
        busy b;
        sem_init(&t->sem, 0, 0);
        t->id = (int)g_t.size();
        auto* a = new starter{t, [st]() { st->_M_run(); }};
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1024 * 1024);
        int rc = pthread_create(&t->real, &at, &sched::entry, a);
        pthread_attr_destroy(&at);
        if (rc)
        {
            perror("pthread_create");
            _exit(70);
        }
        g_t.push_back(t);
    }
    _M_id = thread::id(t->real);
    sync_point();
}
static thr* find_thr(std::thread::native_handle_type h)
{
    for (thr* t : g_t)
        if (t != &g_main && !t->joined && pthread_equal(t->real, h)) return t;
    return nullptr;
}
void thread::join()
{
    thr* t = mine() ? find_thr(native_handle()) : nullptr;
    if (t)
    {
        sync_point();
        if (!t->done) block(w_join, t);
        t->joined = true;
        pthread_join(t->real, nullptr);
    }
    else
        pthread_join(native_handle(), nullptr);
    _M_id = id();
}
void thread::detach() // still joined by end()
{
    _M_id = id();
    if (mine()) sync_point();
}
namespace chrono
{
inline namespace _V2
{
static int64_t real_now(clockid_t id)
{
    timespec ts;
    clock_gettime(id, &ts);
    return ts_ns(&ts);
}
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_on ? g_now : real_now(CLOCK_REALTIME))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_on ? g_now : real_now(CLOCK_MONOTONIC))); }
} // namespace _V2
} // namespace chrono
} // namespace std

std::random_device::result_type std::random_device::_M_getval()
{
    static pbt::rng g(4711);
    return (result_type)g.next();
}
