// Schedules of threads that use the code under test concurrently (C19, C26, C27), controlled by sched.
#include "conc.hpp"
#include "cornerstone.hxx"
#include "fs_log_store.hxx"
#include "sched.hpp"
#include "util.hpp"
#include <cstring>
#include <memory>
#include <thread>

using namespace cornerstone;
using pbt::Case;

namespace
{
std::string text_of(buffer& b, bool& ok)
{
    // do not move the position: other threads may look at the same entry
    sched::quiet q;
    std::string s(reinterpret_cast<const char*>(b.data()) - b.pos(), b.size());
    ok = true;
    return s;
}

// ------------------------------------------------------------------ C26
struct ares
{
    typedef async_result<std::string> A;
    ptr<A> a;
    std::string value;
    ptr<std::exception> err;
    bool set_begun = false, set_done = false;
    int handled = 0;
    bool has_handler = false;
};

void run_async(Case& c)
{
    ares x;
    uint32_t ctor = c.pick({5, 2, 1}); // default, with handler, with a result
    bool fails = c.chance(1, 3);
    x.value = std::string(c.one_of<uint32_t>({1, 40, 200}), (char)('a' + c.draw(20)));
    if (fails) x.err = cs_new<std::runtime_error>("e" + std::to_string(c.draw(100)));
    std::string hist;
    const char* bad = nullptr;
    auto fail = [&](const char* key, const std::string& m) { c.fail(key, "%s\n%s\nswitches: %s", m.c_str(), hist.c_str(), sched::trace().c_str()); };
    sched::on_stuck = [&](const char* w) { fail("hang", std::string("a caller never returns: ") + w); };
    ares::A::handler_type handler = [&](std::string& r, const ptr<std::exception>& e) {
        sched::quiet q;
        if (!x.set_begun) fail("early", "the handler ran before a result was set");
        if (e != x.err) fail("value", "the handler got another error than the one set");
        if (!e && r != x.value) fail("value", "the handler got '" + r + "' instead of '" + x.value + "'");
        ++x.handled;
    };
    sched::options o;
    o.spurious = true;
    o.max_steps = 200000;
    sched::begin(c, o);
    if (ctor == 1)
    {
        x.a = cs_new<ares::A>(handler);
        x.has_handler = true;
        hist += "created with a handler; ";
    }
    else if (ctor == 2)
    {
        x.set_begun = x.set_done = true;
        fails = false;
        x.err.reset();
        x.a = cs_new<ares::A>(x.value);
        hist += "created with a result; ";
    }
    else
        x.a = cs_new<ares::A>();
    auto do_set = [&] {
        x.set_begun = true;
        if (c.chance(1, 2))
            x.a->set_result(x.value, x.err);
        else
        {
            std::string v = x.value;
            ptr<std::exception> e = x.err;
            x.a->set_result(std::move(v), std::move(e));
        }
        x.set_done = true;
    };
    auto do_when = [&] { x.a->when_ready(handler); };
    auto do_get = [&] {
        bool was_set = x.set_done;
        (void)was_set;
        try
        {
            std::string& r = x.a->get();
            if (!x.set_begun) bad = "get returned before a result was set";
            if (x.err) bad = "get returned a value although an error was set";
            if (r != x.value) bad = "get returned another value";
        }
        catch (ptr<std::exception>& e)
        {
            if (!x.set_begun) bad = "get threw before a result was set";
            if (e != x.err || !e) bad = "get threw another error";
        }
        if (bad) fail("get", bad);
    };
    // who does what: every operation on a thread of its own, or by the main thread in between
    std::vector<int> ops; // 0 set 1 when_ready 2 get
    if (ctor != 2) ops.push_back(0);
    if (!x.has_handler && !c.chance(1, 4))
    {
        ops.push_back(1);
        x.has_handler = true;
    }
    uint32_t gets = c.draw(4);
    while (gets--) ops.push_back(2);
    std::vector<std::thread> ts;
    bool set_given = ctor == 2;
    uint32_t conc = 0;
    while (!ops.empty())
    {
        uint32_t i = c.draw((uint32_t)ops.size());
        int k = ops[i];
        ops.erase(ops.begin() + i);
        bool own = c.chance(3, 4);
        if (k == 2 && !set_given) own = true; // would block the main thread for ever
        static const char* const nm[] = {"set_result", "when_ready", "get"};
        hist += std::string(own ? "thread: " : "main: ") + nm[k] + "; ";
        std::function<void()> f;
        if (k == 0)
            f = do_set;
        else if (k == 1)
            f = do_when;
        else
            f = do_get;
        if (k == 0) set_given = true;
        if (own)
        {
            ts.emplace_back(f);
            ++conc;
        }
        else
            f();
    }
    for (auto& t : ts) t.join();
    uint64_t sw = sched::switches();
    if (x.has_handler && x.handled != 1) fail("times", "the handler ran " + std::to_string(x.handled) + " times");
    if (!x.has_handler && x.handled) fail("times", "a handler ran");
    sched::end();
    c.label("switches", sw);
    c.label("threads", conc);
    c.sample(hist + sched::trace());
    if (conc >= 2) c.nontrivial();
}

// ------------------------------------------------------------------ C19
struct cstore
{
    Case& c;
    util::scratch dir;
    std::unique_ptr<fs_log_store> st;
    std::map<ulong, std::vector<std::string>> versions; // every text ever stored at an index
    std::string hist;
    ulong stable_lo, stable_hi; // [lo, hi): never overwritten nor compacted in this case
    ulong next_begun = 1;       // appends begun
    bool overwrites = false;
    int vers = 0;
    uint64_t reads = 0, wops = 0;
    cstore(Case& cc) : c(cc), stable_lo(1), stable_hi(1) {}
    [[noreturn]] void bad(const char* key, const std::string& m)
    {
        c.fail(key, "%s\n%s\nswitches: %s", m.c_str(), hist.c_str(), sched::trace().c_str());
        abort();
    }
    ptr<log_entry> make(ulong idx, uint32_t len)
    {
        sched::quiet q;
        std::string t = std::to_string(idx) + ":" + std::to_string(++vers) + ":";
        t += std::string(len, (char)('a' + vers % 26));
        versions[idx].push_back(t);
        bufptr b = buffer::alloc(t.size());
        memcpy(b->data(), t.data(), t.size());
        return cs_new<log_entry>(term_of(idx), std::move(b));
    }
    static ulong term_of(ulong idx) { return 100 + idx / 3; }
    void check(const char* what, ulong idx, const ptr<log_entry>& e)
    {
        sched::quiet q;
        if (!e) bad("missing", std::string(what) + " gave nothing for index " + std::to_string(idx));
        bool ok;
        std::string t = text_of(e->get_buf(), ok);
        auto& v = versions[idx];
        if (std::find(v.begin(), v.end(), t) == v.end() || e->get_term() != term_of(idx))
            bad("entry", std::string(what) + " of index " + std::to_string(idx) + " gave term " + std::to_string(e->get_term()) + " '" + t.substr(0, 40) + "'");
    }
};

void run_store(Case& c)
{
    cstore s(c);
    int buf = c.one_of<int>({-1, 0, 1, 2, 3, 5, 100});
    s.hist = "buffer size " + std::to_string(buf) + "; ";
    sched::on_stuck = [&](const char* w) { s.bad("hang", w); };
    s.st.reset(new fs_log_store(s.dir.path, buf));
    uint32_t n0 = c.range(2, 14);
    for (uint32_t i = 1; i <= n0; ++i)
    {
        auto e = s.make(i, c.draw(20));
        s.st->append(e);
    }
    s.next_begun = n0 + 1;
    s.overwrites = c.chance(1, 2);
    ulong lo = 1 + c.draw(n0), hi = lo + 1 + c.draw((uint32_t)(n0 - lo + 1)); // stable: [lo, hi)
    if (!s.overwrites) hi = n0 + 1;
    s.stable_lo = lo;
    s.stable_hi = hi;
    s.hist += std::to_string(n0) + " entries, stable [" + std::to_string(lo) + "," + std::to_string(hi) + "); ";
    struct wop
    {
        int k;
        ulong i;
        uint32_t len;
    };
    std::vector<wop> w;
    ulong next = n0 + 1, start = 1;
    uint32_t nw = c.range(1, 6);
    for (uint32_t i = 0; i < nw; ++i)
    {
        switch (c.pick({4, s.overwrites ? 3u : 0u, 2}))
        {
            case 0:
                w.push_back({0, next, c.draw(30)});
                s.hist += "append " + std::to_string(next) + "; ";
                ++next;
                break;
            case 1:
            {
                if (hi >= next)
                {
                    w.push_back({0, next, c.draw(30)});
                    s.hist += "append " + std::to_string(next) + "; ";
                    ++next;
                    break;
                }
                ulong x = hi + c.draw((uint32_t)(next - hi));
                w.push_back({1, x, c.draw(30)});
                s.hist += "write_at " + std::to_string(x) + "; ";
                next = x + 1;
                break;
            }
            default:
                if (start < lo)
                {
                    ulong x = start + c.draw((uint32_t)(lo - start));
                    w.push_back({2, x, 0});
                    s.hist += "compact " + std::to_string(x) + "; ";
                    start = x + 1;
                }
        }
    }
    for (auto& o : w)
        if (o.k != 2) {} // texts are made when the operation runs
    struct rop
    {
        int k;
        uint32_t a, b;
    };
    uint32_t nr = c.range(1, 3);
    std::vector<std::vector<rop>> r(nr);
    static const char* const rn[] = {"entry_at", "term_at", "log_entries", "last_entry", "next_slot", "start_index", "pack"};
    for (auto& v : r)
    {
        uint32_t k = c.range(1, 6);
        s.hist += "reader: ";
        while (k--)
        {
            rop o{(int)c.pick({4, 4, 4, 2, 3, 2, 1}), c.draw(1000), c.draw(1000)};
            s.hist += std::string(rn[o.k]) + " ";
            v.push_back(o);
        }
        s.hist += "; ";
    }
    bool two_writers = false;
    (void)two_writers;
    sched::options o;
    o.max_steps = 4000000;
    sched::begin(c, o);
    sched::rearm(6);
    ulong next_done = n0 + 1; // appends that returned
    std::vector<std::thread> ts;
    ts.emplace_back([&] {
        for (auto& x : w)
            try
            {
                ++s.wops;
                if (x.k == 2)
                {
                    if (!s.st->compact(x.i)) s.bad("write", "compact failed");
                    continue;
                }
                auto e = s.make(x.i, x.len);
                if (x.k == 0)
                {
                    if (s.next_begun < x.i + 1) s.next_begun = x.i + 1;
                    ulong g = s.st->append(e);
                    if (g != x.i) s.bad("write", "append returned " + std::to_string(g) + " instead of " + std::to_string(x.i));
                    next_done = x.i + 1;
                }
                else
                    s.st->write_at(x.i, e);
            }
            catch (std::exception& ex)
            {
                s.bad("exception", std::string("writer: ") + ex.what());
            }
    });
    std::vector<std::pair<ulong, std::pair<ulong, std::string>>> packs; // from, count, bytes
    for (auto& v : r)
        ts.emplace_back([&, v] {
            ulong seen_next = 0, seen_start = 0;
            for (auto& x : v)
                try
                {
                    ++s.reads;
                    // what may be read: the stable part, and without overwrites everything seen so far
                    ulong hi2 = s.stable_hi;
                    if (!s.overwrites) hi2 = std::max(hi2, seen_next ? seen_next : s.st->next_slot());
                    ulong span = hi2 - s.stable_lo;
                    ulong a = s.stable_lo + x.a % span;
                    switch (x.k)
                    {
                        case 0: s.check("entry_at", a, s.st->entry_at(a)); break;
                        case 1:
                        {
                            ulong t = s.st->term_at(a);
                            if (t != cstore::term_of(a)) s.bad("term", "term_at(" + std::to_string(a) + ") gave " + std::to_string(t));
                            break;
                        }
                        case 2:
                        {
                            ulong b = a + 1 + x.b % (hi2 - a);
                            auto e = s.st->log_entries(a, b);
                            if (!e || e->size() != b - a) s.bad("range", "log_entries(" + std::to_string(a) + "," + std::to_string(b) + ") gave " + std::to_string(e ? e->size() : 0) + " entries");
                            for (size_t i = 0; i < e->size(); ++i) s.check("log_entries", a + i, (*e)[i]);
                            break;
                        }
                        case 3:
                        {
                            ulong before = s.st->next_slot();
                            auto e = s.st->last_entry();
                            if (!e || e->get_term() == 0) s.bad("last", "last_entry gave nothing");
                            bool ok;
                            std::string t = text_of(e->get_buf(), ok);
                            ulong i = strtoull(t.c_str(), nullptr, 10);
                            s.check("last_entry", i, e);
                            if (!s.overwrites && i + 1 < before) s.bad("last", "last_entry gave index " + std::to_string(i) + " after next_slot was " + std::to_string(before));
                            if (s.overwrites && i + 1 < s.stable_hi) s.bad("last", "last_entry gave index " + std::to_string(i));
                            break;
                        }
                        case 4:
                        {
                            ulong least = s.overwrites ? s.stable_hi : next_done;
                            ulong n = s.st->next_slot();
                            if (n < least || n > s.next_begun) s.bad("next", "next_slot gave " + std::to_string(n));
                            if (!s.overwrites)
                            {
                                if (n < seen_next) s.bad("next", "next_slot went back");
                                seen_next = n;
                            }
                            break;
                        }
                        case 5:
                        {
                            ulong n = s.st->start_index();
                            if (n < seen_start || n > s.stable_lo) s.bad("start", "start_index gave " + std::to_string(n));
                            seen_start = n;
                            break;
                        }
                        default:
                        {
                            ulong b = a + 1 + x.b % (hi2 - a);
                            bufptr p = s.st->pack(a, (int32)(b - a));
                            sched::quiet q;
                            packs.push_back({a, {b - a, std::string(reinterpret_cast<char*>(p->data()), p->size())}});
                        }
                    }
                }
                catch (std::exception& ex)
                {
                    s.bad("exception", std::string("reader: ") + rn[x.k] + " threw " + ex.what());
                }
        });
    for (auto& t : ts) t.join();
    uint64_t sw = sched::switches();
    sched::end();
    try
    {
        for (auto& p : packs)
        {
            util::scratch d2;
            fs_log_store s2(d2.path);
            bufptr b = buffer::alloc(p.second.second.size());
            memcpy(b->data(), p.second.second.data(), b->size());
            s2.apply_pack(1, *b);
            if (s2.next_slot() != p.second.first + 1) s.bad("pack", "a pack of " + std::to_string(p.second.first) + " entries held " + std::to_string(s2.next_slot() - 1));
            for (ulong i = 0; i < p.second.first; ++i) s.check("pack", p.first + i, s2.entry_at(1 + i));
        }
        // the store is intact
        if (s.st->start_index() != start || s.st->next_slot() != next) s.bad("final", "the store ended at [" + std::to_string(s.st->start_index()) + "," + std::to_string(s.st->next_slot()) + ")");
        for (ulong i = start; i < next; ++i)
        {
            auto e = s.st->entry_at(i);
            s.check("final entry_at", i, e);
            bool ok;
            if (text_of(e->get_buf(), ok) != s.versions[i].back()) s.bad("final", "index " + std::to_string(i) + " does not hold what was written last");
        }
    }
    catch (std::exception& ex)
    {
        s.bad("exception", std::string("afterwards: ") + ex.what());
    }
    c.label("switches", sw);
    c.label("reads", s.reads);
    c.label("writes", s.wops);
    c.sample(s.hist + sched::trace());
    if (sw > r.size() + 3 && s.wops) c.nontrivial();
}
} // namespace

void reg_prop(const char* id, const char* rule, void (*f)(Case&), uint64_t quick, uint64_t thorough, uint32_t batch)
{
    pbt::Prop p;
    p.id = id;
    p.rule = rule;
    p.run = f;
    p.quick_cases = quick;
    p.thorough_cases = thorough;
    p.batch = batch;
    p.cpu_limit_s = 30;
    p.wall_limit_s = 60;
    p.workers = 0;
    pbt::add(p);
}

int main(int argc, char** argv)
{
    reg_prop("C19", "a random store, one writer thread (append, overwrite above or compact below a stable range) and 1-3 reader threads with random programs under generated schedules with pre-emption at locks, loads, stores and branches of the store's code; every read judged against what was stored; non-trivial: more context switches than threads", run_store, 24000, 600000, 20);
    reg_prop("C26", "one set_result, up to one handler and up to 3 blocking reads in random order, on threads of their own or on the main thread, under generated schedules with pre-emption at locks, loads, stores and branches and spurious wake-ups; non-trivial: at least 2 concurrent threads", run_async, 40000, 2000000, 50);
    reg_raft();
    reg_threads();
    return pbt::main_loop(argc, argv);
}
