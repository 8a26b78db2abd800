// File log store, buffers and codecs against explicit models (C16, C17, C18, C20, C21).
#include "engine.hpp"
#include "util.hpp"
#include "mini.hpp"
#include "cornerstone.hxx"
#include "fs_log_store.hxx"
#include <cstring>
#include <dlfcn.h>
#include <memory>
#include <sstream>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace cornerstone;
using pbt::Case;

// File system faults (C32): while armed, the k-th call of one kind fails as it would on an I/O error, without any effect.
namespace fault
{
enum kind { none, truncating, removing, opening, writing };
thread_local kind armed = none;
thread_local uint32_t countdown = 0;
thread_local bool fired = false;
static bool hit(kind k)
{
    if (armed != k || countdown-- != 0) return false;
    armed = none;
    fired = true;
    errno = k == writing ? ENOSPC : EIO;
    return true;
}
} // namespace fault
template <typename F>
static F next_sym(const char* n)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
extern "C"
{
int truncate64(const char* p, off64_t n) noexcept
{
    static auto f = next_sym<int (*)(const char*, off64_t)>("truncate64");
    return fault::hit(fault::truncating) ? -1 : f(p, n);
}
int truncate(const char* p, off_t n) noexcept
{
    static auto f = next_sym<int (*)(const char*, off_t)>("truncate");
    return fault::hit(fault::truncating) ? -1 : f(p, n);
}
int ftruncate64(int d, off64_t n) noexcept
{
    static auto f = next_sym<int (*)(int, off64_t)>("ftruncate64");
    return fault::hit(fault::truncating) ? -1 : f(d, n);
}
int ftruncate(int d, off_t n) noexcept
{
    static auto f = next_sym<int (*)(int, off_t)>("ftruncate");
    return fault::hit(fault::truncating) ? -1 : f(d, n);
}
int remove(const char* p) noexcept
{
    static auto f = next_sym<int (*)(const char*)>("remove");
    return fault::hit(fault::removing) ? -1 : f(p);
}
ssize_t write(int d, const void* p, size_t n)
{
    static auto f = next_sym<ssize_t (*)(int, const void*, size_t)>("write");
    return fault::hit(fault::writing) ? -1 : f(d, p, n);
}
ssize_t writev(int d, const iovec* v, int n)
{
    static auto f = next_sym<ssize_t (*)(int, const iovec*, int)>("writev");
    return fault::hit(fault::writing) ? -1 : f(d, v, n);
}
FILE* fopen64(const char* p, const char* m)
{
    static auto f = next_sym<FILE* (*)(const char*, const char*)>("fopen64");
    return fault::hit(fault::opening) ? nullptr : f(p, m);
}
}

namespace
{
// ---------------------------------------------------------------- generators
std::string gen_bytes(Case& c, size_t n)
{
    pbt::rng g(c.seed32());
    std::string s(n, 0);
    for (auto& ch : s) ch = (char)g.next();
    return s;
}
size_t gen_len(Case& c, bool big_ok)
{
    switch (c.pick({6, 3, 3, 2, big_ok ? 1u : 0u, big_ok ? 1u : 0u}))
    {
        case 0: return c.range(1, 12);
        case 1: return 0;
        case 2: return c.range(1, 100);
        case 3: return c.range(100, 2000);
        case 4: return c.range(0x7fe8, 0x8018);
        default: return c.range(0x8000, 0x18000);
    }
}
uint64_t gen_u64(Case& c)
{
    switch (c.draw(6))
    {
        case 0: return c.draw(10);
        case 1: return c.draw(100000);
        case 2: return (uint64_t)1 << c.draw(64);
        case 3: return ~(uint64_t)0 - c.draw(3);
        case 4: return ((uint64_t)1 << c.draw(64)) - 1;
        default: return c.u64();
    }
}
std::string buf_bytes(buffer& b) // all bytes, independent of its position (which is restored)
{
    size_t p = b.pos();
    b.pos(0);
    std::string s(reinterpret_cast<const char*>(b.data()), b.size());
    b.pos(p);
    return s;
}
bufptr to_buf(const std::string& s)
{
    bufptr b = buffer::alloc(s.size());
    memcpy(b->data(), s.data(), s.size());
    return b;
}
std::string hex(const std::string& s, size_t max = 24)
{
    std::string o;
    char t[4];
    for (size_t i = 0; i < s.size() && i < max; ++i) snprintf(t, 4, "%02x", (unsigned char)s[i]), o += t;
    if (s.size() > max) o += "..(" + std::to_string(s.size()) + ")";
    return o;
}

// ---------------------------------------------------------------- log store
struct ment
{
    ulong term;
    int type;
    std::string bytes;
    bool operator==(const ment& o) const { return term == o.term && type == o.type && bytes == o.bytes; }
};
std::string text(const ment& m) { return "(term " + std::to_string(m.term) + " type " + std::to_string(m.type) + " " + hex(m.bytes, 10) + " len " + std::to_string(m.bytes.size()) + ")"; }
ment of(log_entry& e) { return {e.get_term(), (int)e.get_val_type(), buf_bytes(e.get_buf())}; }

struct model
{
    ulong start = 1;
    std::vector<ment> log;
    ulong next() const { return start + log.size(); }
};

struct store_test
{
    Case& c;
    std::unique_ptr<util::scratch> dir{new util::scratch};
    std::unique_ptr<fs_log_store> st;
    model m;
    int buf;
    std::string hist;
    bool big_ok;
    const char* tag;
    int n_over = 0, n_over_below = 0, n_compact = 0, n_reopen = 0, n_copy = 0, n_file_reads = 0;

    store_test(Case& cc, const char* t, int b) : c(cc), buf(b), big_ok(cc.chance(1, 3)), tag(t) { open(); }
    void open() { st.reset(new fs_log_store(dir->path, buf)); }
    void op(const std::string& s)
    {
        hist += s;
        hist += "; ";
        if (pbt::verbose()) fprintf(stderr, "%s %s\n", tag, s.c_str());
    }
    [[noreturn]] void bad(const char* key, const std::string& what)
    {
        c.fail(key, "%s\nbuffer size %d, history of store %s: %s", what.c_str(), buf, tag, hist.c_str());
    }
    ptr<log_entry> gen_entry(ment& e)
    {
        e.term = c.chance(1, 8) ? gen_u64(c) : (m.log.empty() ? 1 : m.log.back().term) + c.draw(2);
        e.type = c.chance(1, 3) ? (int)c.range(1, 5) : 1;
        e.bytes = gen_bytes(c, gen_len(c, big_ok));
        auto p = cs_new<log_entry>(e.term, to_buf(e.bytes), (log_val_type)e.type);
        if (c.chance(1, 6)) p->get_buf().pos(c.draw((uint32_t)e.bytes.size() + 1)); // somebody has read from it
        return p;
    }
    ulong buffered_from() const { return buf < 0 || m.log.size() <= (size_t)buf ? m.start : m.next() - (ulong)buf; }

    template <typename F>
    void guard(const char* what, F f)
    {
        try
        {
            f();
        }
        catch (std::exception& e)
        {
            bad("exception", std::string(what) + " threw " + e.what());
        }
    }
    void same(const char* what, ulong idx, ptr<log_entry> e)
    {
        if (!e) bad("entry", std::string(what) + " gave nothing for index " + std::to_string(idx));
        ment g = of(*e);
        const ment& w = m.log[(size_t)(idx - m.start)];
        if (!(g == w)) bad("entry", std::string(what) + " at " + std::to_string(idx) + " gave " + text(g) + ", expected " + text(w));
    }
    void read_entry(ulong i)
    {
        if (i < buffered_from()) ++n_file_reads;
        guard("entry_at", [&] { same("entry_at", i, st->entry_at(i)); });
    }
    void read_term(ulong i)
    {
        guard("term_at", [&] {
            ulong t = st->term_at(i);
            if (t != m.log[(size_t)(i - m.start)].term) bad("term", "term_at(" + std::to_string(i) + ") gave " + std::to_string(t) + ", expected " + std::to_string(m.log[(size_t)(i - m.start)].term));
        });
    }
    void read_range(ulong a, ulong b)
    {
        guard("log_entries", [&] {
            ptr<std::vector<ptr<log_entry>>> r = st->log_entries(a, b);
            ulong e = std::min(b, m.next());
            size_t want = a < e ? (size_t)(e - a) : 0;
            size_t got = r ? r->size() : 0;
            if (want != got) bad("range", "log_entries(" + std::to_string(a) + "," + std::to_string(b) + ") gave " + std::to_string(got) + " entries, expected " + std::to_string(want));
            for (size_t i = 0; i < want; ++i) same("log_entries", a + i, (*r)[i]);
        });
    }
    void read_meta()
    {
        if (st->start_index() != m.start) bad("start", "start_index() is " + std::to_string(st->start_index()) + ", expected " + std::to_string(m.start));
        if (st->next_slot() != m.next()) bad("next", "next_slot() is " + std::to_string(st->next_slot()) + ", expected " + std::to_string(m.next()));
        guard("last_entry", [&] {
            ptr<log_entry> e = st->last_entry();
            if (!e) bad("last", "last_entry() gave null");
            if (m.log.empty())
            {
                if (e->get_term() != 0) bad("last", "last_entry() of an empty store has term " + std::to_string(e->get_term()));
            }
            else
                same("last_entry", m.next() - 1, e);
        });
    }
    void outside()
    {
        guard("read past the end", [&] {
            ulong i = m.next() + c.draw(3);
            if (st->entry_at(i)) bad("outside", "entry_at(" + std::to_string(i) + ") gave an entry past the end");
            ptr<std::vector<ptr<log_entry>>> r = st->log_entries(i, i + 1 + c.draw(3));
            if (r && !r->empty()) bad("outside", "log_entries past the end gave entries");
            if (!m.log.empty())
            {
                ulong k = m.start + c.draw((uint32_t)m.log.size());
                r = st->log_entries(k, k);
                if (r && !r->empty()) bad("outside", "log_entries of an empty range gave entries");
            }
        });
        if (m.start > 1)
        {
            ulong i = m.start - 1 - c.draw((uint32_t)std::min<ulong>(m.start - 1, 4));
            try
            {
                if (st->entry_at(i)) bad("outside", "entry_at(" + std::to_string(i) + ") gave a compacted entry");
            }
            catch (std::exception&)
            {
            }
        }
    }
    void full()
    {
        read_meta();
        for (ulong i = m.start; i < m.next(); ++i)
        {
            read_entry(i);
            read_term(i);
        }
        if (!m.log.empty()) read_range(m.start, m.next());
    }
    void reads()
    {
        if (m.log.empty())
        {
            read_meta();
            outside();
            return;
        }
        uint32_t n = (uint32_t)m.log.size();
        switch (c.draw(5))
        {
            case 0: read_meta(); break;
            case 1: read_entry(m.start + c.draw(n)); break;
            case 2: read_term(m.start + c.draw(n)); break;
            case 3:
            {
                ulong a = m.start + c.draw(n);
                ulong b = a + 1 + c.draw(n + 2);
                read_range(a, b);
                break;
            }
            default: outside();
        }
        // a read must not disturb anything
        if (c.chance(1, 4)) full();
    }
    void append()
    {
        ment e;
        ptr<log_entry> p = gen_entry(e);
        op("append " + text(e));
        guard("append", [&] {
            ulong i = st->append(p);
            if (i != m.next()) bad("append", "append returned " + std::to_string(i) + ", expected " + std::to_string(m.next()));
        });
        m.log.push_back(e);
    }
    void append_many(uint32_t k) // many small ones
    {
        ulong term = 1 + c.draw(3);
        op("append " + std::to_string(k) + " small entries of term " + std::to_string(term));
        for (; k; --k)
        {
            ment e;
            e.term = term;
            e.type = log_val_type::app_log;
            e.bytes = std::to_string(m.next());
            bufptr b = buffer::alloc(e.bytes.size());
            memcpy(b->data(), e.bytes.data(), e.bytes.size());
            ptr<log_entry> p = cs_new<log_entry>(term, std::move(b), log_val_type::app_log);
            guard("append", [&] {
                ulong i = st->append(p);
                if (i != m.next()) bad("append", "append returned " + std::to_string(i) + ", expected " + std::to_string(m.next()));
            });
            m.log.push_back(e);
        }
    }
    void overwrite()
    {
        if (m.log.empty()) return append();
        ulong i = m.start + c.draw((uint32_t)m.log.size());
        if (c.chance(1, 2)) i = m.next() - 1 - c.draw((uint32_t)std::min<size_t>(m.log.size(), 4));
        ++n_over;
        if (i < buffered_from()) ++n_over_below;
        ment e;
        ptr<log_entry> p = gen_entry(e);
        op("write_at " + std::to_string(i) + " " + text(e));
        guard("write_at", [&] { st->write_at(i, p); });
        m.log.resize((size_t)(i - m.start));
        m.log.push_back(e);
    }
    void compact()
    {
        ulong i;
        uint32_t k = c.pick({5, 2, 1});
        if (m.log.empty() || k == 2)
            i = m.next() + c.draw(5);
        else if (k == 1)
            i = m.next() - 1;
        else
            i = m.start + c.draw((uint32_t)m.log.size());
        ++n_compact;
        op("compact " + std::to_string(i));
        guard("compact", [&] {
            if (!st->compact(i)) bad("compact", "compact(" + std::to_string(i) + ") reported failure");
        });
        if (i + 1 >= m.next())
            m.log.clear();
        else
            m.log.erase(m.log.begin(), m.log.begin() + (long)(i + 1 - m.start));
        m.start = i + 1;
    }
    int n_faults = 0, n_refused = 0;
    // a compaction during which one file system call fails: it succeeds all the same, or it fails and nothing is lost
    void faulty_compact()
    {
        ulong i = m.log.empty() || c.chance(1, 4) ? m.next() - 1 + c.draw(4) : m.start + c.draw((uint32_t)m.log.size());
        if (i < m.start) i = m.start;
        auto k = (fault::kind)c.range(1, 4);
        uint32_t at = c.draw(k == fault::opening ? 14 : k == fault::writing ? 12 : k == fault::removing ? 5 : 2);
        op("compact " + std::to_string(i) + " with a failing " + (k == fault::truncating ? "truncate" : k == fault::removing ? "remove" : k == fault::opening ? "open" : "write") + " (call " + std::to_string(at + 1) + ")");
        fault::fired = false;
        fault::countdown = at;
        fault::armed = k;
        bool r = false;
        std::string thrown;
        try
        {
            r = st->compact(i);
        }
        catch (std::exception& e)
        {
            thrown = e.what();
            if (thrown.empty()) thrown = "exception";
        }
        fault::armed = fault::none;
        if (!thrown.empty()) bad("threw", "one failing call made compact throw: " + thrown);
        if (!fault::fired && !r) bad("compact", "compact failed although nothing failed");
        if (fault::fired) ++n_faults;
        if (!r)
            ++n_refused;
        else
        {
            if (i + 1 >= m.next())
                m.log.clear();
            else
                m.log.erase(m.log.begin(), m.log.begin() + (long)(i + 1 - m.start));
            m.start = i + 1;
        }
        full();
    }
    void reopen()
    {
        ++n_reopen;
        buf = c.one_of<int>({-1, 0, 1, 2, 3, 7, 1000});
        op("reopen with buffer size " + std::to_string(buf));
        guard("reopen", [&] {
            if (c.chance(1, 2)) st->close();
            st.reset();
            open();
        });
    }
    // the files as they are now, without closing: what a process crash would leave
    void copy_files(bool go_on)
    {
        ++n_copy;
        int nb = c.one_of<int>({-1, 0, 1, 2, 3, 7, 1000});
        op(std::string(go_on ? "crash and start" : "look at a copy") + " with buffer size " + std::to_string(nb));
        std::unique_ptr<util::scratch> d2(new util::scratch);
        for (auto& f : std::filesystem::directory_iterator(dir->path)) std::filesystem::copy_file(f.path(), std::filesystem::path(d2->path) / f.path().filename());
        guard("open of the copied files", [&] {
            std::unique_ptr<fs_log_store> s2(new fs_log_store(d2->path, nb));
            std::swap(st, s2);
            std::swap(dir, d2);
            std::swap(buf, nb);
            full();
            if (!go_on)
            {
                std::swap(st, s2);
                std::swap(dir, d2);
                std::swap(buf, nb);
            }
        });
    }
};

int gen_bufsize(Case& c) { return c.one_of<int>({-1, 0, 1, 2, 3, 4, 7, 20, 100, 1000}); }

void run_store(Case& c, bool durable)
{
    store_test t(c, "A", gen_bufsize(c));
    uint32_t n = 0;
    for (; n < 120; ++n)
    {
        c.span_begin();
        bool more = c.draw(25) != 0;
        if (more)
        {
            switch (c.pick({20, 8, 4, 12, durable ? 4u : 0u, durable ? 4u : 0u, 6, 1}))
            {
                case 0: t.append(); break;
                case 1: t.overwrite(); break;
                case 2: t.compact(); break;
                case 3: t.reads(); break;
                case 4: t.reopen(); break;
                case 5: t.copy_files(c.chance(1, 2)); break;
                case 6:
                {
                    uint32_t k = c.range(2, 9);
                    while (k--) t.append();
                    break;
                }
                default: t.append_many(c.range(40, 400));
            }
            t.read_meta();
        }
        c.span_end();
        if (!more) break;
    }
    if (durable && !t.n_reopen && !t.n_copy) c.chance(1, 2) ? t.reopen() : t.copy_files(true);
    t.full();
    c.label("operations", n);
    c.label("overwrites", (uint64_t)t.n_over);
    c.label("overwrites below the buffered window", (uint64_t)t.n_over_below);
    c.label("compactions", (uint64_t)t.n_compact);
    c.label("reopens", (uint64_t)t.n_reopen);
    c.label("file copies opened", (uint64_t)t.n_copy);
    c.label("single reads from file", (uint64_t)t.n_file_reads);
    c.sample("buffer " + std::to_string(t.buf) + ": " + t.hist.substr(0, 700));
    if (durable ? (t.n_reopen + t.n_copy > 0 && t.m.log.size() >= 2) : (t.n_over > 0 && (t.n_compact > 0 || t.n_file_reads > 0))) c.nontrivial();
}

void run_faults(Case& c)
{
    store_test t(c, "A", gen_bufsize(c));
    uint32_t n = c.range(1, 4);
    for (uint32_t r = 0; r < n; ++r)
    {
        c.span_begin();
        uint32_t k = c.draw(12);
        while (k--) t.append();
        if (c.chance(1, 4)) t.overwrite();
        if (c.chance(1, 4)) t.compact();
        t.faulty_compact();
        if (c.chance(1, 3)) t.copy_files(c.chance(1, 2));
        if (c.chance(1, 3)) t.reopen();
        k = c.draw(3);
        while (k--) switch (c.pick({3, 2, 1}))
            {
                case 0: t.append(); break;
                case 1: t.overwrite(); break;
                default: t.compact();
            }
        t.full();
        c.span_end();
    }
    t.reopen();
    t.full();
    c.label("calls failed", (uint64_t)t.n_faults);
    c.label("compactions refused", (uint64_t)t.n_refused);
    c.sample("buffer " + std::to_string(t.buf) + ": " + t.hist.substr(0, 700));
    if (t.n_refused) c.nontrivial();
}

void run_pack(Case& c)
{
    store_test a(c, "A", gen_bufsize(c)), b(c, "B", gen_bufsize(c));
    auto prep = [&](store_test& t, uint32_t lim) {
        uint32_t k = c.draw(lim);
        while (k--) t.append();
        if (c.chance(1, 3)) t.overwrite();
        if (c.chance(1, 3)) t.compact();
        k = c.draw(lim);
        while (k--) t.append();
        if (c.chance(1, 5)) t.reopen();
    };
    int applied = 0;
    uint32_t rounds = c.range(1, 3);
    if (c.chance(1, 12)) a.append_many(c.range(40, 400));
    prep(a, 12);
    prep(b, 8);
    for (uint32_t r = 0; r < rounds; ++r)
    {
        c.span_begin();
        ulong ia = a.m.start + c.draw((uint32_t)a.m.log.size() + 1);
        int32 cnt = c.one_of<int>({1, 0, 2, 3, 5, 100, 1000000});
        // the same index where the target allows it, another legal one otherwise
        if (!c.chance(1, 4) && b.m.start <= a.m.next())
        {
            ulong lo = std::max(a.m.start, b.m.start), hi = std::min(a.m.next(), b.m.next());
            if (lo <= hi) ia = lo + c.draw((uint32_t)(hi - lo + 1));
        }
        ulong ib = ia;
        if (ib < b.m.start || ib > b.m.next()) ib = b.m.start + c.draw((uint32_t)b.m.log.size() + 1);
        a.op("pack " + std::to_string(ia) + " count " + std::to_string(cnt));
        bufptr p(nullptr, [](buffer*) {});
        a.guard("pack", [&] { p = a.st->pack(ia, cnt); });
        size_t n = (size_t)std::min<ulong>((ulong)cnt, a.m.next() - ia);
        if (n == 0)
        {
            if (p->size() != 0) a.bad("pack", "packing nothing gave " + std::to_string(p->size()) + " bytes");
        }
        else
        {
            p->pos(0);
            b.op("apply_pack of " + std::to_string(n) + " entries of A from " + std::to_string(ia) + " at " + std::to_string(ib));
            b.guard("apply_pack", [&] { b.st->apply_pack(ib, *p); });
            b.m.log.resize((size_t)(ib - b.m.start));
            for (size_t i = 0; i < n; ++i) b.m.log.push_back(a.m.log[(size_t)(ia - a.m.start) + i]);
            ++applied;
            b.full();
            if (c.chance(1, 3)) b.reopen();
            if (c.chance(1, 4)) b.copy_files(c.chance(1, 2));
        }
        uint32_t k = c.draw(4);
        while (k--) switch (c.pick({4, 2, 1}))
            {
                case 0: b.append(); break;
                case 1: b.overwrite(); break;
                default: b.compact();
            }
        if (c.chance(1, 3)) a.append();
        b.full();
        c.span_end();
    }
    a.full();
    b.full();
    c.label("packs applied", (uint64_t)applied);
    c.sample(a.hist.substr(0, 400) + " || " + b.hist.substr(0, 500));
    if (applied) c.nontrivial();
}

// ---------------------------------------------------------------- buffers (C20)
struct mbuf
{
    bufptr b{nullptr, [](buffer*) {}};
    std::string bytes;
    size_t pos = 0;
};
size_t gen_buf_size(Case& c)
{
    switch (c.pick({6, 3, 2, 1}))
    {
        case 0: return c.range(0, 64);
        case 1: return c.range(0x7ff0, 0x8010);
        case 2: return c.range(0, 5000);
        default: return c.one_of<uint32_t>({0xfffe, 0xffff, 0x10000, 0x10001, 0x20000, 0x7fff, 0x8000, 0x18001, 0x100000});
    }
}
void run_buffer(Case& c)
{
    std::vector<mbuf> bs;
    std::string hist;
    int n_throw = 0, n_big = 0, n_ops = 0;
    auto fresh = [&](size_t sz) {
        mbuf m;
        m.b = buffer::alloc(sz);
        if (m.b->size() != sz || m.b->pos() != 0) c.fail("alloc", "alloc(%zu) gave size %zu pos %zu", sz, m.b->size(), m.b->pos());
        m.bytes = gen_bytes(c, sz);
        memcpy(m.b->data(), m.bytes.data(), sz);
        if (sz >= 0x8000) ++n_big;
        bs.push_back(std::move(m));
        hist += "alloc " + std::to_string(sz) + "; ";
    };
    auto check = [&](mbuf& m, const char* what, bool deep) {
        if (m.b->pos() != m.pos) c.fail("pos", "after %s position is %zu, expected %zu (size %zu)\n%s", what, m.b->pos(), m.pos, m.bytes.size(), hist.c_str());
        if (m.b->size() != m.bytes.size()) c.fail("size", "after %s size is %zu, expected %zu\n%s", what, m.b->size(), m.bytes.size(), hist.c_str());
        if (deep && buf_bytes(*m.b) != m.bytes) c.fail("bytes", "after %s contents differ from what was put\n%s", what, hist.c_str());
    };
    if (c.draw(20) == 19) // more than a buffer can hold
    {
        size_t sz = ((size_t)1 << 31) + (c.draw(2) ? c.draw(3) : (c.u64() >> (1 + c.draw(33))));
        bool threw = false;
        try
        {
            bufptr b = buffer::alloc(sz);
            if (b->size() == sz) threw = true; // it can
        }
        catch (std::out_of_range&)
        {
            threw = true;
        }
        if (!threw) c.fail("alloc-limit", "alloc(%zu) gave a buffer of another size", sz);
    }
    fresh(gen_buf_size(c));
    for (; n_ops < 100; ++n_ops)
    {
        c.span_begin();
        bool more = c.draw(30) != 0;
        if (!more)
        {
            c.span_end();
            break;
        }
        uint32_t which = c.draw((uint32_t)bs.size());
        mbuf& m = bs[which];
        size_t room = m.bytes.size() - m.pos;
        const char* what = "";
        std::string put; // bytes a put writes
        bool is_put = false, threw = false;
        uint32_t k = c.pick({4, 3, 3, 3, 3, 3, 3, 3, 3, 4, 2, 2, 2, 2, 1});
        char t[160];
        auto le = [&](uint64_t v, size_t n) {
            std::string s;
            for (size_t i = 0; i < n; ++i) s += (char)(v >> (8 * i));
            return s;
        };
        auto peek = [&](size_t n) {
            uint64_t v = 0;
            for (size_t i = 0; i < n; ++i) v |= (uint64_t)(unsigned char)m.bytes[m.pos + i] << (8 * i);
            return v;
        };
        try
        {
            switch (k)
            {
                case 0:
                {
                    size_t p;
                    switch (c.draw(4))
                    {
                        case 0: p = 0; break;
                        case 1: p = m.bytes.size() - std::min<size_t>(m.bytes.size(), c.draw(12)); break;
                        case 2: p = m.bytes.size() + c.draw(20); break;
                        default: p = m.bytes.empty() ? 0 : c.draw((uint32_t)m.bytes.size() + 1);
                    }
                    what = "pos";
                    snprintf(t, sizeof t, "pos(%zu); ", p);
                    hist += t;
                    m.b->pos(p);
                    m.pos = std::min(p, m.bytes.size());
                    break;
                }
                case 1:
                {
                    byte v = (byte)c.draw(256);
                    what = "put(byte)";
                    is_put = true;
                    put = le(v, 1);
                    m.b->put(v);
                    break;
                }
                case 2:
                {
                    int32 v = (int32)gen_u64(c);
                    what = "put(int32)";
                    is_put = true;
                    put = le((uint32_t)v, 4);
                    m.b->put(v);
                    break;
                }
                case 3:
                {
                    ulong v = gen_u64(c);
                    what = "put(ulong)";
                    is_put = true;
                    put = le(v, 8);
                    m.b->put(v);
                    break;
                }
                case 4:
                {
                    std::string v = gen_bytes(c, c.chance(1, 6) ? room - std::min<size_t>(room, c.draw(3)) : c.range(1, 40));
                    for (auto& ch : v)
                        if (!ch) ch = 'x';
                    what = "put(string)";
                    is_put = true;
                    put = v + std::string(1, '\0');
                    m.b->put(v);
                    break;
                }
                case 5:
                case 6:
                {
                    what = "get_byte";
                    if (k == 5)
                    {
                        byte v = m.b->get_byte();
                        if (room < 1) c.fail("get", "get_byte past the end succeeded\n%s", hist.c_str());
                        if (v != peek(1)) c.fail("get", "get_byte gave %d\n%s", v, hist.c_str());
                        m.pos += 1;
                    }
                    else
                    {
                        what = "get_int";
                        int32 v = m.b->get_int();
                        if (room < 4) c.fail("get", "get_int past the end succeeded\n%s", hist.c_str());
                        if ((uint32_t)v != (uint32_t)peek(4)) c.fail("get", "get_int gave %d, expected %d\n%s", v, (int32)peek(4), hist.c_str());
                        m.pos += 4;
                    }
                    break;
                }
                case 7:
                {
                    what = "get_ulong";
                    ulong v = m.b->get_ulong();
                    if (room < 8) c.fail("get", "get_ulong past the end succeeded\n%s", hist.c_str());
                    if (v != peek(8)) c.fail("get", "get_ulong gave %llu, expected %llu\n%s", (unsigned long long)v, (unsigned long long)peek(8), hist.c_str());
                    m.pos += 8;
                    break;
                }
                case 8:
                {
                    what = "get_str";
                    const char* s = m.b->get_str();
                    size_t z = m.bytes.find('\0', m.pos);
                    if (z == std::string::npos)
                    {
                        if (s) c.fail("get", "get_str returned a string without end\n%s", hist.c_str());
                    }
                    else if (z > m.pos)
                    {
                        if (!s) c.fail("get", "get_str returned nothing for a string of %zu bytes\n%s", z - m.pos, hist.c_str());
                        if (std::string(s) != m.bytes.substr(m.pos, z - m.pos)) c.fail("get", "get_str returned other bytes\n%s", hist.c_str());
                        m.pos = z + 1;
                    }
                    else if (s) // an empty string: nil without moving, or an empty one consumed
                    {
                        if (*s) c.fail("get", "get_str returned text for an empty string\n%s", hist.c_str());
                        m.pos = z + 1;
                    }
                    break;
                }
                case 9:
                case 10:
                {
                    uint32_t o = c.draw((uint32_t)bs.size());
                    if (o == which) break;
                    mbuf& s = bs[o];
                    if (k == 9)
                    {
                        what = "put(buffer)";
                        is_put = true;
                        put = s.bytes.substr(s.pos);
                        m.b->put(*s.b);
                        check(s, "put(buffer) source", false);
                    }
                    else
                    {
                        what = "get(buffer)";
                        size_t n = s.bytes.size() - s.pos;
                        try
                        {
                            m.b->get(s.b);
                        }
                        catch (...)
                        {
                            check(s, "get(buffer) that threw, destination", true);
                            if (n <= room) c.fail("throw", "get(buffer) of %zu bytes with %zu left threw\n%s", n, room, hist.c_str());
                            throw;
                        }
                        if (n > room) c.fail("get", "get(buffer) of %zu bytes with %zu left succeeded\n%s", n, room, hist.c_str());
                        for (size_t i = 0; i < n; ++i) s.bytes[s.pos + i] = m.bytes[m.pos + i];
                        m.pos += n;
                        check(s, "get(buffer) destination", true);
                    }
                    break;
                }
                case 11:
                {
                    what = "copy";
                    mbuf n;
                    n.b = buffer::copy(*m.b);
                    n.bytes = m.bytes.substr(m.pos);
                    check(n, "copy", true);
                    if (bs.size() < 6)
                    {
                        bs.push_back(std::move(n));
                        hist += "copy; ";
                        check(bs[which], "copy source", true);
                        what = nullptr;
                    }
                    break;
                }
                case 12:
                {
                    what = "stream out";
                    std::ostringstream o;
                    o << *m.b;
                    if (o.str() != m.bytes.substr(m.pos)) c.fail("stream", "operator<< wrote other bytes\n%s", hist.c_str());
                    break;
                }
                case 13:
                {
                    what = "stream in";
                    bool enough = !c.chance(1, 4);
                    std::string v = gen_bytes(c, enough ? room + c.draw(3) : (room ? c.draw((uint32_t)room) : 0));
                    std::istringstream in(v);
                    try
                    {
                        in >> *m.b;
                        if (v.size() < room) c.fail("stream", "operator>> of %zu bytes into %zu succeeded\n%s", v.size(), room, hist.c_str());
                    }
                    catch (std::ios::failure&)
                    {
                        if (v.size() >= room) c.fail("stream", "operator>> of %zu bytes into %zu failed\n%s", v.size(), room, hist.c_str());
                        ++n_throw;
                    }
                    for (size_t i = 0; i < room && i < v.size(); ++i) m.bytes[m.pos + i] = v[i];
                    break;
                }
                default:
                    if (bs.size() < 6) fresh(gen_buf_size(c));
                    what = nullptr;
            }
        }
        catch (std::exception& e)
        {
            threw = true;
            ++n_throw;
            size_t need = is_put ? put.size() : k == 5 ? 1 : k == 6 ? 4 : k == 7 ? 8 : (size_t)-1;
            if (k != 10 && need <= room) c.fail("throw", "%s of %zu bytes with %zu left threw %s\n%s", what, need, room, e.what(), hist.c_str());
            if (k == 0 || k == 8 || k > 10) c.fail("throw", "%s threw %s\n%s", what, e.what(), hist.c_str());
        }
        if (what)
        {
            mbuf& mm = bs[which];
            hist += std::string(what) + (threw ? " threw; " : "; ");
            if (is_put && !threw)
            {
                if (put.size() > room) c.fail("put", "%s of %zu bytes with %zu left succeeded\n%s", what, put.size(), room, hist.c_str());
                mm.bytes.replace(mm.pos, put.size(), put);
                mm.pos += put.size();
            }
            check(mm, what, mm.bytes.size() < 4096 || c.chance(1, 4));
        }
        c.span_end();
    }
    for (auto& m : bs) check(m, "everything", true);
    c.label("operations", (uint64_t)n_ops);
    c.label("calls that threw", (uint64_t)n_throw);
    c.label("big buffers", (uint64_t)n_big);
    c.sample(hist.substr(0, 600));
    if (n_ops >= 3) c.nontrivial();
}

// ---------------------------------------------------------------- codecs (C21)
std::string gen_endpoint(Case& c)
{
    std::string s;
    switch (c.pick({5, 2, 1}))
    {
        case 0:
            s = "tcp://10.0.0." + std::to_string(c.draw(256)) + ":" + std::to_string(c.draw(65536));
            break;
        case 1:
            s = gen_bytes(c, c.range(1, 60));
            break;
        default: s = gen_bytes(c, c.one_of<uint32_t>({1, 0x7ff0, 0x7ffb, 0x7fff, 0x8000, 70000}));
    }
    for (auto& ch : s)
        if (!ch) ch = 'e';
    return s;
}
ptr<srv_config> gen_srv(Case& c) { return cs_new<srv_config>((int32)gen_u64(c), gen_endpoint(c)); }
ptr<cluster_config> gen_conf(Case& c)
{
    ptr<cluster_config> r = cs_new<cluster_config>(gen_u64(c), gen_u64(c));
    uint32_t n = c.pick({1, 3, 1}) == 2 ? c.range(0, 60) : c.draw(6);
    while (n--) r->get_servers().push_back(gen_srv(c));
    return r;
}
bool eq(srv_config& a, srv_config& b) { return a.get_id() == b.get_id() && a.get_endpoint() == b.get_endpoint(); }
bool eq(cluster_config& a, cluster_config& b)
{
    if (a.get_log_idx() != b.get_log_idx() || a.get_prev_log_idx() != b.get_prev_log_idx() || a.get_servers().size() != b.get_servers().size()) return false;
    auto i = a.get_servers().begin();
    for (auto& s : b.get_servers())
        if (!eq(**i++, *s)) return false;
    return true;
}
bool eq(snapshot& a, snapshot& b)
{
    return a.get_last_log_idx() == b.get_last_log_idx() && a.get_last_log_term() == b.get_last_log_term() && a.size() == b.size() && eq(*a.get_last_config(), *b.get_last_config());
}

// T: ser(), de(buffer&) -> nullptr-able, equal()
template <typename Ser, typename De, typename Eq>
void codec(Case& c, const char* name, Ser ser, De de, Eq same, size_t min_valid, bool fixed_end)
{
    bufptr b1 = ser();
    if (b1->pos() != 0) c.fail("pos", "%s::serialize leaves position %zu", name, b1->pos());
    std::string enc = buf_bytes(*b1);
    auto r1 = de(*b1);
    if (!r1) c.fail("nil", "%s::deserialize of its own serialisation gave nothing", name);
    if (!same(*r1, enc.size())) c.fail("differs", "%s differs after a round trip (%zu bytes: %s)", name, enc.size(), hex(enc).c_str());
    if (fixed_end && b1->pos() != b1->size()) c.fail("pos", "%s::deserialize consumed %zu of %zu bytes", name, b1->pos(), b1->size());
    bufptr b2 = r1->serialize();
    if (buf_bytes(*b2) != enc) c.fail("bytes", "%s serialises to other bytes after a round trip", name);
    // serialising twice gives the same bytes
    bufptr b3 = ser();
    if (buf_bytes(*b3) != enc) c.fail("bytes", "%s serialises differently the second time", name);
    // embedded: after other data, and (where its length is known) before other data
    std::string pre = gen_bytes(c, c.one_of<uint32_t>({0, 1, 9, 100, 0x7fe0, 40000}));
    std::string post = fixed_end ? gen_bytes(c, c.draw(20)) : std::string();
    bufptr e = to_buf(pre + enc + post);
    e->pos(pre.size());
    auto r2 = de(*e);
    if (!r2 || !same(*r2, enc.size())) c.fail("differs", "%s differs after a round trip inside a bigger buffer (offset %zu)", name, pre.size());
    if (fixed_end && e->pos() != pre.size() + enc.size()) c.fail("pos", "%s::deserialize ended at %zu, expected %zu", name, e->pos(), pre.size() + enc.size());
    if (buf_bytes(*e) != pre + enc + post) c.fail("bytes", "%s::deserialize changed the buffer", name);
    // truncated
    uint64_t cuts = 0;
    auto cut = [&](size_t n) {
        bufptr t = to_buf(enc.substr(0, n));
        ++cuts;
        bool rejected = false;
        try
        {
            auto r = de(*t);
            if (!r) rejected = true;
        }
        catch (std::exception&)
        {
            rejected = true;
        }
        if (!rejected && n < min_valid) c.fail("truncated", "%s::deserialize accepted the first %zu of %zu bytes", name, n, enc.size());
        if (t->pos() > t->size()) c.fail("truncated", "%s::deserialize moved the position past the end", name);
    };
    if (enc.size() <= 300)
        for (size_t n = 0; n < enc.size(); ++n) cut(n);
    else
        for (int i = 0; i < 12; ++i) cut(c.draw((uint32_t)enc.size()));
    c.label("truncations", cuts);
    c.label(name);
    c.sample(std::string(name) + " " + hex(enc, 60));
    if (enc.size() > 12) c.nontrivial();
}

void run_codec(Case& c)
{
    switch (c.draw(5))
    {
        case 0:
        {
            auto v = gen_srv(c);
            size_t n = v->serialize()->size();
            codec(c, "srv_config", [&] { return v->serialize(); }, [](buffer& b) { return srv_config::deserialize(b); }, [&](srv_config& r, size_t) { return eq(*v, r); }, n, true);
            break;
        }
        case 1:
        {
            auto v = gen_conf(c);
            size_t n = v->serialize()->size();
            codec(c, "cluster_config", [&] { return v->serialize(); }, [](buffer& b) { return cluster_config::deserialize(b); }, [&](cluster_config& r, size_t) { return eq(*v, r); }, n, true);
            break;
        }
        case 2:
        {
            auto v = cs_new<snapshot>(gen_u64(c), gen_u64(c), gen_conf(c), gen_u64(c));
            size_t n = v->serialize()->size();
            codec(c, "snapshot", [&] { return v->serialize(); }, [](buffer& b) { return snapshot::deserialize(b); }, [&](snapshot& r, size_t) { return eq(*v, r); }, n, true);
            break;
        }
        case 3:
        {
            auto s = cs_new<snapshot>(gen_u64(c), gen_u64(c), gen_conf(c), gen_u64(c));
            std::string data = gen_bytes(c, gen_len(c, true));
            bool done = c.chance(1, 2);
            ulong off = gen_u64(c);
            // what is left of a buffer is sent
            size_t used = c.chance(1, 3) ? c.draw(40) : 0;
            bufptr left = to_buf(std::string(used, '!') + data);
            left->pos(used);
            snapshot_sync_req v(s, off, std::move(left), done);
            size_t head = s->serialize()->size() + 9;
            codec(c, "snapshot_sync_req", [&] { return v.serialize(); }, [](buffer& b) { return snapshot_sync_req::deserialize(b); },
                  [&](snapshot_sync_req& r, size_t) { return eq(*s, r.get_snapshot()) && r.get_offset() == off && r.is_done() == done && buf_bytes(r.get_data()) == data && r.get_data().pos() == 0; }, head, false);
            break;
        }
        default:
        {
            std::string data = gen_bytes(c, gen_len(c, true));
            ulong term = gen_u64(c);
            int type = (int)c.range(1, 5);
            log_entry v(term, to_buf(data), (log_val_type)type);
            if (c.chance(1, 3)) v.get_buf().pos(c.draw((uint32_t)data.size() + 1)); // somebody read it before
            codec(c, "log_entry", [&] { return v.serialize(); }, [](buffer& b) { return log_entry::deserialize(b); },
                  [&](log_entry& r, size_t) { return r.get_term() == term && (int)r.get_val_type() == type && buf_bytes(r.get_buf()) == data && r.get_buf().pos() == 0; }, 9, false);
        }
    }
}

// ---------------------------------------------------------------- sending snapshots of any size (C10)
// One real server leads, the harness answers for the two followers; one of them needs the snapshot. Its bytes are a
// function of the offset, so that snapshots of terabytes cost nothing; the follower says how far it has got.
struct stopped
{
};
class big_sm : public mini::msm
{
public:
    ulong size = 0;
    int fail_in = -1, how = 0;
    bool failed = false, outside = false;
    static byte at(ulong o) { return (byte)((o * 0x9E3779B97F4A7C15ull) >> 56) ^ (byte)o; }
    int read_snapshot_data(snapshot&, const ulong off, buffer& b) override
    {
        size_t n = b.size() - b.pos();
        if (off > size || n > size - off)
        {
            outside = true;
            return 0;
        }
        if (fail_in >= 0 && fail_in-- == 0)
        {
            failed = true;
            if (how == 0 || n < 2) return how == 1 ? 0 : -1;
            if (how == 1) return 0;
            for (size_t k = 0; k + 1 < n; ++k) b.data()[k] = at(off + k);
            return (int)n - 1;
        }
        for (size_t k = 0; k < n; ++k) b.data()[k] = at(off + k);
        return (int)n;
    }
};
ulong gen_big(Case& c)
{
    switch (c.draw(6))
    {
        case 0: return 1 + c.draw(60);
        case 1: return 1 + c.draw(20000);
        case 2: return ((ulong)1 << c.range(28, 44)) + c.draw(40) - 20;
        case 3: return ((ulong)c.range(1, 20) << 31) + c.draw(9000) - 4500;
        default: return 1 + (c.u64() >> (16 + c.draw(40)));
    }
}
void run_big_snapshot(Case& c)
{
    std::string hist;
    auto op = [&](const std::string& s) {
        hist += s + "; ";
        if (pbt::verbose()) fprintf(stderr, "%s\n", s.c_str());
    };
    mini::node n(1, {1, 2, 3});
    auto sm = cs_new<big_sm>();
    n.sm = sm;
    ulong K = 1 + (c.chance(1, 4) ? c.u64() >> (8 + c.draw(50)) : c.draw(20)), T = 1 + c.draw(5);
    sm->size = gen_big(c);
    int32 blk = c.chance(1, 4) ? 0 : c.chance(1, 2) ? (int32)c.range(1, 64) : (int32)c.range(1000, 9000);
    ulong lim = blk ? (ulong)blk : 4096;
    if (c.chance(1, 4))
    {
        sm->fail_in = (int)c.draw(6);
        sm->how = (int)c.draw(3);
    }
    sm->snp = cs_new<snapshot>(K, T, mini::mmgr::copy(*n.mgr->conf), sm->size);
    sm->last = K;
    n.mgr->log->start = K + 1;
    for (uint32_t k = c.draw(4); k > 0; --k) n.mgr->log->v.push_back(mini::entry(T, "old" + std::to_string(k)));
    n.mgr->states.push_back({T, -1});
    n.mgr->on_exit = [] { throw stopped(); };
    n.tune = [blk](raft_params& p) { p.with_snapshot_sync_block_size(blk); };
    op("snapshot of " + std::to_string(sm->size) + " bytes at " + std::to_string(K) + ", pieces of " + std::to_string(blk));
    uint32_t pieces = 0, jumps = 0, beyond = 0;
    bool done = false, exited = false;
    ulong at = 0, term = T + 1;
    try
    {
        n.start();
        n.election();
        mini::message m;
        uint32_t steps = c.range(6, 60), idle = 0;
        bool in_sync = false;
        while (steps > 0)
        {
            if (!n.take(m))
            {
                if (++idle > 3) break;
                for (size_t k = n.timers->pending(); k > 0; --k)
                    if (k <= n.timers->pending()) n.timers->fire(n.timers->at(k - 1).get());
                continue;
            }
            idle = 0;
            --steps;
            int who = m.to == "s2" ? 2 : 3;
            ulong next = m.req->get_last_log_idx() + m.req->log_entries().size() + 1;
            auto resp = [&](msg_type t, ulong nx, bool ok) {
                ptr<resp_msg> r = cs_new<resp_msg>(term, t, who, 1, nx, ok);
                n.answer(m, r);
            };
            switch (m.req->get_type())
            {
                case msg_type::vote_request: resp(msg_type::vote_response, 0, true); break;
                case msg_type::append_entries_request:
                    if (who == 3)
                        resp(msg_type::append_entries_response, next, true);
                    else if (done)
                    {
                        if (m.req->get_last_log_idx() != K) c.fail("after", "the follower has the whole snapshot at %llu, it is sent the logs after %llu\n%s", (unsigned long long)K, (unsigned long long)m.req->get_last_log_idx(), hist.c_str());
                        steps = 0;
                    }
                    else
                    {
                        if (in_sync) c.fail("stopped-sending", "the follower has %llu of %llu bytes of the snapshot, it is sent logs after %llu\n%s", (unsigned long long)at, (unsigned long long)sm->size, (unsigned long long)m.req->get_last_log_idx(), hist.c_str());
                        resp(msg_type::append_entries_response, 1, false);
                    }
                    break;
                case msg_type::install_snapshot_request:
                {
                    if (who != 2) c.fail("who", "the snapshot is sent to a server that has all logs\n%s", hist.c_str());
                    buffer& b = m.req->log_entries()[0]->get_buf();
                    b.pos(0);
                    ptr<snapshot_sync_req> q = snapshot_sync_req::deserialize(b);
                    std::string d = buf_bytes(q->get_data());
                    op("piece [" + std::to_string(q->get_offset()) + ",+" + std::to_string(d.size()) + ")" + (q->is_done() ? " last" : ""));
                    in_sync = true;
                    ++pieces;
                    if (at >= ((ulong)1 << 31)) ++beyond;
                    if (done) c.fail("resent", "the whole snapshot is there, another piece is sent\n%s", hist.c_str());
                    if (sm->failed) c.fail("unread-sent", "bytes that could not be read from the snapshot are sent\n%s", hist.c_str());
                    if (q->get_snapshot().size() != sm->size || q->get_snapshot().get_last_log_idx() != K || q->get_snapshot().get_last_log_term() != T)
                        c.fail("label", "the piece is of a snapshot at (%llu, %llu) of %llu bytes\n%s", (unsigned long long)q->get_snapshot().get_last_log_idx(), (unsigned long long)q->get_snapshot().get_last_log_term(), (unsigned long long)q->get_snapshot().size(), hist.c_str());
                    if (q->get_offset() != at) c.fail("offset", "the follower has %llu bytes, the piece starts at %llu\n%s", (unsigned long long)at, (unsigned long long)q->get_offset(), hist.c_str());
                    if (d.empty() || d.size() > lim || d.size() > sm->size - at) c.fail("length", "a piece of %zu bytes at %llu of %llu, at most %llu per piece\n%s", d.size(), (unsigned long long)at, (unsigned long long)sm->size, (unsigned long long)lim, hist.c_str());
                    for (size_t k = 0; k < d.size(); ++k)
                        if ((byte)d[k] != big_sm::at(at + k)) c.fail("bytes", "byte %llu of the snapshot is wrong\n%s", (unsigned long long)(at + k), hist.c_str());
                    if (q->is_done() != (at + d.size() >= sm->size)) c.fail("done", "piece [%llu,+%zu) of %llu bytes %s\n%s", (unsigned long long)at, d.size(), (unsigned long long)sm->size, q->is_done() ? "says it is the last" : "does not say it is the last", hist.c_str());
                    switch (c.pick({8, 2, 1, 1}))
                    {
                        case 1: // far ahead, as after many pieces
                        {
                            ulong to = c.chance(1, 2) ? gen_big(c) : sm->size - 1 - std::min<ulong>(sm->size - 1, c.draw(20000));
                            if (to > at && to < sm->size)
                            {
                                at = to;
                                ++jumps;
                                op("follower has " + std::to_string(at));
                                resp(msg_type::install_snapshot_response, at, true);
                                break;
                            }
                        } // fall through
                        case 0:
                            at += d.size();
                            if (at >= sm->size) done = true;
                            resp(msg_type::install_snapshot_response, at, true);
                            break;
                        case 2:
                            op("declined");
                            resp(msg_type::install_snapshot_response, 1, false);
                            break;
                        default:
                            op("lost");
                            n.lose(m);
                    }
                    break;
                }
                default: c.fail("type", "unexpected request of type %d\n%s", (int)m.req->get_type(), hist.c_str());
            }
            if (sm->outside) c.fail("outside", "bytes beyond the end of the snapshot are read\n%s", hist.c_str());
        }
    }
    catch (stopped&)
    {
        exited = true;
    }
    if (sm->outside) c.fail("outside", "bytes beyond the end of the snapshot are read\n%s", hist.c_str());
    if (exited && !sm->failed) c.fail("exit", "the server shut down\n%s", hist.c_str());
    if (sm->failed) c.label("read failed");
    if (beyond) c.label("piece beyond 2 GB");
    if (done) c.label("completed");
    if (pieces >= 2 || sm->failed) c.nontrivial();
    c.sample(hist);
}

void reg(const char* id, const char* rule, void (*f)(Case&), uint64_t quick, uint64_t thorough, uint32_t batch)
{
    pbt::Prop p;
    p.id = id;
    p.rule = rule;
    p.run = f;
    p.quick_cases = quick;
    p.thorough_cases = thorough;
    p.batch = batch;
    p.cpu_limit_s = 20;
    p.wall_limit_s = 60;
    p.workers = 0;
    pbt::add(p);
}
} // namespace

int main(int argc, char** argv)
{
    reg("C16", "random append/write_at/compact/read sequences (mean 25 operations, buffer sizes 1..1000 and unlimited, payloads 0 to 96 KiB) against a list model, all entries compared at the end; non-trivial: an overwrite, and a compaction or a read from file", [](Case& c) { run_store(c, false); }, 20000, 800000, 40);
    reg("C17", "as C16 with reopening and opening copies of the files at random points, all entries compared after each; non-trivial: a reopen or copy and at least 2 entries at the end", [](Case& c) { run_store(c, true); }, 15000, 600000, 40);
    reg("C18", "two random stores, random pack index and count, applied to the other store at a legal index, followed by random operations and reopening; full comparison with list models; non-trivial: a non-empty pack was applied", run_pack, 15000, 600000, 40);
    reg("C32", "a store of up to 50 entries, compactions during which one truncate, remove, write or open call fails (any call of up to the 14th), then comparison with the list model, copies of the files, reopening and further operations; non-trivial: a compaction failed", run_faults, 40000, 1600000, 40);
    reg("C20", "random puts, gets, position changes, copies and streams over up to 6 buffers of sizes around 0, 0x8000, 0x10000 and random, against a byte-array model; non-trivial: at least 3 operations", run_buffer, 30000, 1500000, 100);
    reg("C21", "random values of the five serialised classes: round trip, re-serialisation, embedding, every truncation (or 12 random ones of big values); non-trivial: encoding longer than 12 bytes", run_codec, 30000, 1500000, 100);
    reg("C10", "a leader sends a snapshot (1 byte to 2^48 bytes, its bytes a function of the offset, pieces of 1 to 9000 bytes) to a follower that accepts, declines or loses pieces or says it is far ahead; reads may fail; non-trivial: two or more pieces, or a failed read", run_big_snapshot, 4000, 200000, 20);
    return pbt::main_loop(argc, argv);
}
