// The asio service over real loopback TCP and real time: transport, malformed input, timers, log files (C22-C25).
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "engine.hpp"
#include "mini.hpp"
#include "util.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <chrono>
#include <condition_variable>
#include <fcntl.h>
#include <fstream>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sstream>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

using namespace cornerstone;
using pbt::Case;
typedef std::chrono::steady_clock sclock;

// the service starts one worker per processor; cases choose how many there are
static std::atomic<unsigned> g_cpus{2};
unsigned int std::thread::hardware_concurrency() noexcept { return g_cpus.load(); }

// requests that arrive at a listener end here instead of in raft_server (see run.py: --wrap)
static std::function<ptr<resp_msg>(raft_server*, req_msg&)> g_handler;
extern "C" ptr<resp_msg> __real__ZN11cornerstone11raft_server11process_reqERNS_7req_msgE(raft_server* self, req_msg& req);
// wall clocks of the calling thread, however they are read (C25)
static thread_local time_t t_skew = 0;
static time_t skew_of(int t) { return (time_t)t * (41 * 86400 + 7 * 3600 + 1261); }
extern "C"
{
    int clock_gettime(clockid_t c, struct timespec* ts) noexcept
    {
        int r = (int)syscall(SYS_clock_gettime, c, ts);
        if (!r && ts && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) ts->tv_sec += t_skew;
        return r;
    }
    time_t time(time_t* t) noexcept
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        if (t) *t = ts.tv_sec;
        return ts.tv_sec;
    }
    int gettimeofday(struct timeval* tv, void*) noexcept
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        if (tv) tv->tv_sec = ts.tv_sec, tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    int timespec_get(struct timespec* ts, int base) noexcept
    {
        if (base != TIME_UTC) return 0;
        clock_gettime(CLOCK_REALTIME, ts);
        return base;
    }
}
extern "C" ptr<resp_msg> __wrap__ZN11cornerstone11raft_server11process_reqERNS_7req_msgE(raft_server* self, req_msg& req)
{
    if (g_handler) return g_handler(self, req);
    return __real__ZN11cornerstone11raft_server11process_reqERNS_7req_msgE(self, req);
}

namespace
{
const int LIMIT_S = 20; // how long anything that must happen may take
ptr<msg_handler> dummy_handler() // never reached, see g_handler
{
    static mini::node* n = [] {
        mini::node* k = new mini::node(1, {1});
        k->start();
        return k;
    }();
    return ptr<msg_handler>(n->srv.get(), [](raft_server*) {});
}

std::string gen_bytes(Case& c, size_t n)
{
    pbt::rng g(c.seed32());
    std::string s(n, 0);
    for (auto& ch : s) ch = (char)g.next();
    return s;
}
struct ent
{
    ulong term;
    int type;
    std::string bytes;
    bool operator==(const ent& o) const { return term == o.term && type == o.type && bytes == o.bytes; }
};
struct rq
{
    int type = 1, src = 0, dst = 0;
    ulong term = 0, lterm = 0, lidx = 0, commit = 0;
    std::vector<ent> es;
    bool operator==(const rq& o) const
    {
        return type == o.type && src == o.src && dst == o.dst && term == o.term && lterm == o.lterm && lidx == o.lidx && commit == o.commit && es == o.es;
    }
};
struct rs
{
    int type = 2, src = 0, dst = 0;
    ulong term = 0, next = 0;
    bool acc = false;
    bool operator==(const rs& o) const { return type == o.type && src == o.src && dst == o.dst && term == o.term && next == o.next && acc == o.acc; }
};
std::string text(const rq& r)
{
    std::ostringstream o;
    o << "type " << r.type << " src " << r.src << " dst " << r.dst << " term " << r.term << " last " << r.lterm << "/" << r.lidx << " commit " << r.commit << " entries " << r.es.size();
    for (auto& e : r.es) o << " (" << e.term << "," << e.type << "," << e.bytes.size() << "B)";
    return o.str();
}
std::string text(const rs& r)
{
    std::ostringstream o;
    o << "type " << r.type << " src " << r.src << " dst " << r.dst << " term " << r.term << " next " << r.next << " accepted " << r.acc;
    return o.str();
}
rq of(req_msg& m)
{
    rq r;
    r.type = (int)m.get_type();
    r.src = m.get_src();
    r.dst = m.get_dst();
    r.term = m.get_term();
    r.lterm = m.get_last_log_term();
    r.lidx = m.get_last_log_idx();
    r.commit = m.get_commit_idx();
    for (auto& e : m.log_entries())
    {
        size_t p = e->get_buf().pos();
        e->get_buf().pos(0);
        r.es.push_back({e->get_term(), (int)e->get_val_type(), std::string(reinterpret_cast<char*>(e->get_buf().data()), e->get_buf().size())});
        e->get_buf().pos(p);
    }
    return r;
}
ptr<req_msg> make(const rq& r)
{
    auto m = cs_new<req_msg>(r.term, (msg_type)r.type, r.src, r.dst, r.lterm, r.lidx, r.commit);
    for (auto& e : r.es)
    {
        m->log_entries().push_back(cs_new<log_entry>(e.term, mini::to_buf(e.bytes), (log_val_type)e.type));
        m->log_entries().back()->get_buf().pos((size_t)(e.term % (e.bytes.size() + 1))); // somebody may have read it
    }
    return m;
}
ptr<resp_msg> make(const rs& r) { return cs_new<resp_msg>(r.term, (msg_type)r.type, r.src, r.dst, r.next, r.acc); }
rs of(resp_msg& m)
{
    rs r;
    r.type = (int)m.get_type();
    r.src = m.get_src();
    r.dst = m.get_dst();
    r.term = m.get_term();
    r.next = m.get_next_idx();
    r.acc = m.get_accepted();
    return r;
}
const int REQ_TYPES[] = {1, 3, 5, 6, 8, 10, 12, 14, 16, 18};
const int RESP_TYPES[] = {2, 4, 7, 9, 11, 13, 15, 17, 19};
bool is_req_type(int t)
{
    for (int k : REQ_TYPES)
        if (k == t) return true;
    return false;
}
rq gen_rq(Case& c, ulong id, bool big)
{
    rq r;
    r.type = REQ_TYPES[c.draw(10)];
    r.src = (int)c.u64();
    r.dst = (int)c.u64();
    r.term = c.u64();
    r.lterm = c.u64();
    r.lidx = c.u64();
    r.commit = id;
    int n = (int)c.pick({4, 3, 2, 1, 1});
    if (n == 4) n = (int)c.range(4, 12);
    for (int i = 0; i < n; ++i)
    {
        size_t len = 0;
        switch (c.pick({6, 2, 3, 2, big ? 1u : 0u}))
        {
            case 0: len = c.range(1, 20); break;
            case 1: len = 0; break;
            case 2: len = c.range(20, 500); break;
            case 3: len = c.range(0x7fc0, 0x8040); break;
            default: len = c.range(60000, 400000); break;
        }
        r.es.push_back({c.u64(), (int)c.range(1, 5), gen_bytes(c, len)});
    }
    return r;
}
rs gen_rs(Case& c)
{
    rs r;
    r.type = RESP_TYPES[c.draw(9)];
    r.src = (int)c.u64();
    r.dst = (int)c.u64();
    r.term = c.u64();
    r.next = c.u64();
    r.acc = c.draw(2);
    return r;
}
template <typename T>
void le(std::string& o, T v)
{
    for (size_t i = 0; i < sizeof(T); ++i) o.push_back((char)((unsigned long long)v >> (8 * i)));
}
template <typename T>
T rd(const std::string& s, size_t p)
{
    unsigned long long v = 0;
    for (size_t i = 0; i < sizeof(T); ++i) v |= (unsigned long long)(unsigned char)s[p + i] << (8 * i);
    return (T)v;
}
std::string wire(const rq& r)
{
    std::string d;
    for (auto& e : r.es)
    {
        le(d, (uint64_t)e.term);
        d.push_back((char)e.type);
        le(d, (uint32_t)e.bytes.size());
        d += e.bytes;
    }
    std::string o;
    o.push_back((char)r.type);
    le(o, (uint32_t)r.src);
    le(o, (uint32_t)r.dst);
    le(o, (uint64_t)r.term);
    le(o, (uint64_t)r.lterm);
    le(o, (uint64_t)r.lidx);
    le(o, (uint64_t)r.commit);
    le(o, (uint32_t)d.size());
    return o + d;
}
std::string wire(const rs& r)
{
    std::string o;
    o.push_back((char)r.type);
    le(o, (uint32_t)r.src);
    le(o, (uint32_t)r.dst);
    le(o, (uint64_t)r.term);
    le(o, (uint64_t)r.next);
    o.push_back(r.acc ? 1 : 0);
    return o;
}

// services live as long as the child process
asio_service& service(unsigned workers = 3)
{
    static asio_service* s[4];
    if (!s[workers])
    {
        g_cpus = workers;
        s[workers] = new asio_service();
    }
    return *s[workers];
}
ptr<logger> quiet_logger()
{
    static ptr<logger> l = cs_new<mini::mlogger>(0);
    return l;
}
int g_next_port = 0;
ptr<rpc_listener> listener_at(int port)
{
    ptr<logger> l = quiet_logger();
    return service().create_rpc_listener((ushort)port, l);
}
int free_port() // a port nobody listens on (ports below the ephemeral range, spread by process)
{
    if (!g_next_port) g_next_port = 10000 + (int)((unsigned)getpid() * 137u % 20000u);
    for (;;)
    {
        g_next_port = g_next_port >= 31000 ? 10000 : g_next_port + 1;
        int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1;
        setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons((uint16_t)g_next_port);
        bool ok = bind(fd, (sockaddr*)&a, sizeof a) == 0 && listen(fd, 1) == 0;
        close(fd);
        if (ok) return g_next_port;
    }
}
int dial(int port)
{
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons((uint16_t)port);
    inet_pton(AF_INET, "127.0.0.1", &a.sin_addr);
    if (connect(fd, (sockaddr*)&a, sizeof a) != 0)
    {
        close(fd);
        return -1;
    }
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    return fd;
}
// reads until `n` bytes, end of stream or the time limit; eof tells that the peer closed
std::string slurp(int fd, size_t n, bool& eof, int ms)
{
    std::string s;
    eof = false;
    auto end = sclock::now() + std::chrono::milliseconds(ms);
    while (s.size() < n)
    {
        int left = (int)std::chrono::duration_cast<std::chrono::milliseconds>(end - sclock::now()).count();
        if (left <= 0) break;
        pollfd p{fd, POLLIN, 0};
        if (poll(&p, 1, left) <= 0) continue;
        char b[4096];
        ssize_t k = read(fd, b, std::min(sizeof b, n - s.size()));
        if (k <= 0)
        {
            eof = true;
            break;
        }
        s.append(b, (size_t)k);
    }
    return s;
}
bool spew(int fd, const char* p, size_t n)
{
    while (n)
    {
        ssize_t k = send(fd, p, n, MSG_NOSIGNAL);
        if (k <= 0) return false;
        p += k;
        n -= (size_t)k;
    }
    return true;
}
template <typename F>
bool eventually(F f, int ms = LIMIT_S * 1000)
{
    auto end = sclock::now() + std::chrono::milliseconds(ms);
    for (int us = 20;; us = std::min(us * 2, 2000))
    {
        if (f()) return true;
        if (sclock::now() > end) return f();
        std::this_thread::sleep_for(std::chrono::microseconds(us));
    }
}

// ---------------------------------------------------------------- C22: transport
enum fate
{
    f_answer,
    f_slow,
    f_drop,  // the handler returns nothing: the session ends
    f_throw, // the handler throws
};
struct expectation
{
    rq q;
    rs a;
    fate f = f_answer;
    int delay_ms = 0;
    int client = 0;
    std::atomic<int> handled{0}, wrong{0};
};
struct call
{
    expectation* e;
    ptr<req_msg> req;
    std::mutex l;
    int done = 0;
    bool throws = false; // the caller's completion throws
    bool got_resp = false, got_err = false, err_req_ok = false;
    rs resp;
};
// a server under control of the harness: per connection, reads `eat` bytes of the stream, sends `give`, closes
struct raw_server
{
    int fd = -1;
    std::thread t;
    std::atomic<bool> stop{false};
    size_t eat;
    std::string give;
    int gap_at;
    bool reset;
    raw_server(int port, size_t e, const std::string& g, int gap, bool rst = false) : eat(e), give(g), gap_at(gap), reset(rst)
    {
        fd = socket(AF_INET, SOCK_STREAM, 0);
        int one = 1;
        setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons((uint16_t)port);
        if (bind(fd, (sockaddr*)&a, sizeof a) != 0 || listen(fd, 16) != 0) _exit(70);
        t = std::thread([this] {
            while (!stop)
            {
                pollfd p{fd, POLLIN, 0};
                if (poll(&p, 1, 5) <= 0) continue;
                int k = accept(fd, nullptr, nullptr);
                if (k < 0) continue;
                bool eof;
                slurp(k, eat, eof, 3000);
                size_t cut = gap_at >= 0 ? std::min((size_t)gap_at, give.size()) : give.size();
                spew(k, give.data(), cut);
                if (cut < give.size())
                {
                    std::this_thread::sleep_for(std::chrono::milliseconds(3));
                    spew(k, give.data() + cut, give.size() - cut);
                }
                if (reset)
                {
                    linger lg{1, 0};
                    setsockopt(k, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
                    close(k);
                    continue;
                }
                shutdown(k, SHUT_WR);
                slurp(k, 1 << 20, eof, 300); // let the peer read what was sent
                close(k);
            }
        });
    }
    ~raw_server()
    {
        stop = true;
        t.join();
        close(fd);
    }
};

struct rpc_world
{
    Case& c;
    std::mutex l;
    std::map<ulong, expectation*> by_id;
    std::vector<std::unique_ptr<expectation>> exps;
    std::atomic<int> unknown{0};
    std::string unknown_text;
    ulong next_id = 1;
    explicit rpc_world(Case& cc) : c(cc)
    {
        g_handler = [this](raft_server*, req_msg& m) -> ptr<resp_msg> {
            rq got = of(m);
            expectation* e = nullptr;
            {
                std::lock_guard<std::mutex> g(l);
                auto it = by_id.find(got.commit);
                if (it != by_id.end()) e = it->second;
                if (!e)
                {
                    unknown_text = text(got);
                    ++unknown;
                }
            }
            if (!e) return ptr<resp_msg>();
            bool at_start = true;
            for (auto& x : m.log_entries()) at_start = at_start && x->get_buf().pos() == 0;
            if (!at_start)
            {
                std::lock_guard<std::mutex> g(l);
                unknown_text = "an entry of it does not start at its first byte: " + text(e->q);
                ++e->wrong;
            }
            if (!(got == e->q))
            {
                std::lock_guard<std::mutex> g(l);
                unknown_text = "sent: " + text(e->q) + "; handled: " + text(got);
                ++e->wrong;
            }
            ++e->handled;
            if (e->delay_ms) std::this_thread::sleep_for(std::chrono::milliseconds(e->delay_ms));
            if (e->f == f_drop) return ptr<resp_msg>();
            if (e->f == f_throw) throw std::runtime_error("handler failed");
            return make(e->a);
        };
    }
    ~rpc_world() { g_handler = nullptr; }
    expectation* expect(bool big)
    {
        auto e = std::make_unique<expectation>();
        e->q = gen_rq(c, (next_id++ << 20) | c.draw(1 << 20), big);
        e->a = gen_rs(c);
        expectation* p = e.get();
        std::lock_guard<std::mutex> g(l);
        by_id[p->q.commit] = p;
        exps.push_back(std::move(e));
        return p;
    }
    void check_handler(const char* when)
    {
        std::lock_guard<std::mutex> g(l);
        if (unknown) c.fail("unknown-request", "%s: the handler got a request that nobody sent: %s", when, unknown_text.c_str());
        for (auto& e : exps)
        {
            if (e->wrong) c.fail("request-changed", "%s: the handler got another request than was sent: %s", when, unknown_text.c_str());
            if (e->handled > 1) c.fail("handled-twice", "%s: a request was handled %d times: %s", when, e->handled.load(), text(e->q).c_str());
        }
    }
};
std::shared_ptr<call> start_call(const ptr<rpc_client>& cli, expectation* e)
{
    auto k = std::make_shared<call>();
    k->e = e;
    k->throws = e->q.term % 16 == 15;
    k->req = make(e->q);
    rpc_handler h = [k](ptr<resp_msg>& r, const ptr<rpc_exception>& x) {
        std::lock_guard<std::mutex> g(k->l);
        ++k->done;
        if (r)
        {
            k->got_resp = true;
            k->resp = of(*r);
        }
        if (x)
        {
            k->got_err = true;
            k->err_req_ok = x->req() == k->req;
        }
        if (k->throws) throw std::runtime_error("completion failed");
    };
    ptr<req_msg> r = k->req;
    cli->send(r, h);
    return k;
}
bool done(const std::shared_ptr<call>& k)
{
    std::lock_guard<std::mutex> g(k->l);
    return k->done > 0;
}
// what a completed call must look like in any case; returns whether it got an answer
bool judge(Case& c, rpc_world& w, const std::shared_ptr<call>& k, const char* when)
{
    if (!eventually([&] { return done(k); })) c.fail("no-completion", "%s: the completion of a request was not invoked within %d s: %s", when, LIMIT_S, text(k->e->q).c_str());
    std::lock_guard<std::mutex> g(k->l);
    if (k->done != 1) c.fail("completed-twice", "%s: the completion was invoked %d times: %s", when, k->done, text(k->e->q).c_str());
    if (k->got_resp == k->got_err) c.fail("resp-and-error", "%s: completion with %s", when, k->got_resp ? "response and error" : "neither response nor error");
    if (k->got_err && !k->err_req_ok) c.fail("error-request", "%s: the error does not carry the request", when);
    if (k->got_resp)
    {
        if (k->e->handled != 1) c.fail("answer-unhandled", "%s: a request has an answer but was handled %d times: %s", when, k->e->handled.load(), text(k->e->q).c_str());
        if (!(k->resp == k->e->a)) c.fail("response-changed", "%s: the handler of %s returned %s, the caller got %s", when, text(k->e->q).c_str(), text(k->e->a).c_str(), text(k->resp).c_str());
    }
    w.check_handler(when);
    return k->got_resp;
}

void run_transport(Case& c)
{
    rpc_world w(c);
    ptr<msg_handler> h = dummy_handler();
    int nl = (int)c.range(1, 2);
    std::vector<int> ports;
    std::vector<ptr<rpc_listener>> ls;
    std::vector<bool> up;
    for (int i = 0; i < nl; ++i)
    {
        ports.push_back(free_port());
        up.push_back(c.draw(6) != 5);
        ls.push_back(ptr<rpc_listener>());
        if (up[i])
        {
            ls[i] = listener_at(ports[i]);
            ls[i]->listen(h);
        }
    }
    struct cli
    {
        ptr<rpc_client> p;
        int at;
    };
    std::vector<cli> cs;
    int nc = (int)c.range(1, 4);
    for (int i = 0; i < nc; ++i)
    {
        int at = (int)c.draw((uint32_t)nl);
        const char* host = c.draw(4) == 3 ? "localhost" : "127.0.0.1";
        cs.push_back({service().create_client(std::string("tcp://") + host + ":" + std::to_string(ports[at])), at});
        if (!cs.back().p) c.fail("no-client", "no client for a legal endpoint");
    }
    int steps = (int)c.range(1, 12), answers = 0, errors = 0;
    std::ostringstream log;
    for (int s = 0; s < steps; ++s)
    {
        c.span_begin();
        switch (c.pick({80, 30, 20, 20, 20, 20, 30, 1}))
        {
            case 7: // a peer that resets the connection while a request is being sent to it
            {
                int port = free_port();
                expectation* e = w.expect(false);
                {
                    std::lock_guard<std::mutex> g(w.l);
                    e->q.es.push_back({e->q.term, 1, std::string((size_t)c.range(12, 24) << 20, 'x')});
                }
                raw_server r(port, c.draw(100000), "", -1, true);
                ptr<rpc_client> p = service().create_client("tcp://127.0.0.1:" + std::to_string(port));
                auto k = start_call(p, e);
                if (judge(c, w, k, "peer that resets")) c.fail("answer-from-nowhere", "a peer that reset the connection answered");
                log << " reset";
                ++errors;
                break;
            }
            case 6: // several requests on one client, without waiting, possibly from several threads
            {
                int i = (int)c.draw((uint32_t)nc), n = (int)c.range(2, 6);
                bool par = c.draw(2);
                std::vector<expectation*> es;
                for (int k = 0; k < n; ++k) es.push_back(w.expect(c.draw(3) == 2));
                std::vector<std::shared_ptr<call>> ks((size_t)n);
                std::vector<std::thread> th;
                for (int k = 0; k < n; ++k)
                    if (par)
                        th.emplace_back([&, k] { ks[(size_t)k] = start_call(cs[(size_t)i].p, es[(size_t)k]); });
                    else
                        ks[(size_t)k] = start_call(cs[(size_t)i].p, es[(size_t)k]);
                for (auto& t : th) t.join();
                for (auto& k : ks)
                {
                    bool ans = judge(c, w, k, "burst");
                    if (!ans && up[cs[i].at]) c.fail("healthy-error", "a request to a healthy listener failed, with others outstanding");
                    ++(ans ? answers : errors);
                }
                log << " burst" << n;
                break;
            }
            case 5: // a listener is stopped while connections come in
            {
                int port = free_port(), n = (int)c.range(1, 6), us = (int)c.draw(300);
                ptr<rpc_listener> x = listener_at(port);
                x->listen(h);
                std::atomic<bool> go{false};
                std::vector<int> fds((size_t)n, -1);
                std::thread t([&] {
                    while (!go) {}
                    for (auto& fd : fds) fd = dial(port);
                });
                go = true;
                if (us) std::this_thread::sleep_for(std::chrono::microseconds(us));
                x->stop();
                t.join();
                for (int fd : fds)
                    if (fd >= 0) close(fd);
                if (!eventually([&] {
                        int fd = dial(port);
                        if (fd >= 0) close(fd);
                        return fd < 0;
                    }))
                    c.fail("still-listening", "a stopped listener accepts connections");
                std::this_thread::sleep_for(std::chrono::microseconds(200));
                log << " stop";
                break;
            }
            case 0: // one request on each of some clients at the same time
            {
                std::vector<std::pair<int, std::shared_ptr<call>>> ks;
                for (int i = 0; i < nc; ++i)
                {
                    if (nc > 1 && c.draw(3) == 0) continue;
                    expectation* e = w.expect(true);
                    switch (c.pick({10, 3, 1, 1}))
                    {
                        case 1: e->f = f_slow; e->delay_ms = (int)c.range(1, 5); break;
                        case 2: e->f = f_drop; break;
                        case 3: e->f = f_throw; break;
                        default: break;
                    }
                    ks.push_back({i, start_call(cs[i].p, e)});
                }
                for (auto& k : ks)
                {
                    bool ans = judge(c, w, k.second, "request");
                    cli& cl = cs[k.first];
                    expectation* e = k.second->e;
                    log << " c" << k.first << (ans ? "=ok" : "=err");
                    if (e->f == f_drop || e->f == f_throw)
                    {
                        if (ans) c.fail("answer-from-nowhere", "a request whose handler %s has an answer", e->f == f_drop ? "returned nothing" : "threw");
                    }
                    else if (!ans && up[cl.at])
                    {
                        c.fail("healthy-error", "a request to a healthy listener failed: %s", text(e->q).c_str());
                    }
                    ++(ans ? answers : errors);
                }
                break;
            }
            case 1: // several requests in a row on one client, each after the completion of the one before
            {
                int i = (int)c.draw((uint32_t)nc), n = (int)c.range(2, 6);
                for (int k = 0; k < n; ++k)
                {
                    bool ans = judge(c, w, start_call(cs[i].p, w.expect(false)), "sequence");
                    if (!ans && up[cs[i].at]) c.fail("healthy-error", "a request to a healthy listener failed");
                    ++(ans ? answers : errors);
                }
                log << " seq" << n;
                break;
            }
            case 2: // a listener that was away comes
            {
                int i = (int)c.draw((uint32_t)nl);
                if (up[i]) break;
                ls[i] = listener_at(ports[i]);
                ls[i]->listen(h);
                up[i] = true;
                log << " up" << i;
                break;
            }
            case 3: // a peer that reads some bytes, answers some bytes and goes away
            {
                int port = free_port();
                expectation* e = w.expect(c.draw(4) == 3);
                std::string full = wire(e->q), ans = wire(e->a);
                bool whole = c.draw(3) == 0;
                size_t eat = whole || c.draw(2) ? full.size() : c.draw((uint32_t)full.size());
                std::string give = whole ? ans : eat < full.size() ? std::string() : ans.substr(0, c.draw((uint32_t)ans.size()));
                raw_server r(port, eat, give, give.empty() || c.draw(2) ? -1 : (int)c.draw((uint32_t)give.size()));
                ptr<rpc_client> p = service().create_client("tcp://127.0.0.1:" + std::to_string(port));
                auto k = start_call(p, e);
                e->handled = whole ? 1 : 0;
                bool ok = judge(c, w, k, "foreign peer");
                if (ok != whole) c.fail("partial-answer", "a peer that sent %zu of %zu bytes of an answer gave %s", give.size(), ans.size(), ok ? "a response" : "an error");
                log << (whole ? " raw-ok" : " raw-cut");
                if (!whole) ++errors;
                break;
            }
            case 4: // nobody listens
            {
                ptr<rpc_client> p = service().create_client("tcp://127.0.0.1:" + std::to_string(free_port()));
                int n = (int)c.range(1, 3);
                for (int k = 0; k < n; ++k)
                    if (judge(c, w, start_call(p, w.expect(false)), "unreachable")) c.fail("answer-from-nowhere", "an unreachable peer answered");
                log << " unreachable" << n;
                ++errors;
                break;
            }
        }
        c.span_end();
    }
    for (auto& x : ls)
        if (x) x->stop();
    cs.clear();
    std::this_thread::sleep_for(std::chrono::microseconds(500));
    w.check_handler("at the end");
    if (answers >= 2) c.nontrivial();
    c.label("answers", (uint64_t)answers);
    c.label("errors", (uint64_t)errors);
    c.sample(std::to_string(nc) + " clients, " + std::to_string(nl) + " listeners:" + log.str());
}

// ---------------------------------------------------------------- C23: malformed input
struct parsed
{
    std::vector<rq> deliver; // in order
    bool broken = false;     // the connection has to be dropped after them
};
// what the byte stream means
parsed parse(const std::string& s)
{
    parsed r;
    size_t p = 0;
    while (s.size() - p >= 45)
    {
        rq q;
        q.type = (unsigned char)s[p];
        q.src = rd<int>(s, p + 1);
        q.dst = rd<int>(s, p + 5);
        q.term = rd<uint64_t>(s, p + 9);
        q.lterm = rd<uint64_t>(s, p + 17);
        q.lidx = rd<uint64_t>(s, p + 25);
        q.commit = rd<uint64_t>(s, p + 33);
        int len = rd<int>(s, p + 41);
        p += 45;
        if (len < 0 || len > 0x1000000)
        {
            r.broken = true;
            return r;
        }
        if (s.size() - p < (size_t)len) return r; // incomplete
        size_t e = p + (size_t)len;
        while (p < e)
        {
            if (e - p < 13)
            {
                r.broken = true;
                return r;
            }
            ent x{rd<uint64_t>(s, p), (unsigned char)s[p + 8], ""};
            int n = rd<int>(s, p + 9);
            p += 13;
            if (n < 0 || (size_t)n > e - p || x.type < 1 || x.type > 5)
            {
                r.broken = true;
                return r;
            }
            x.bytes = s.substr(p, (size_t)n);
            p += (size_t)n;
            q.es.push_back(x);
        }
        if (!is_req_type(q.type))
        {
            r.broken = true;
            return r;
        }
        r.deliver.push_back(q);
    }
    return r;
}
std::string mutate(Case& c, std::string f, const char*& what)
{
    switch (c.draw(9))
    {
        case 0:
            what = "truncated";
            return f.substr(0, c.draw((uint32_t)f.size()));
        case 1:
        {
            what = "size";
            uint32_t v;
            switch (c.draw(6))
            {
                case 0: v = 0xffffffffu - c.draw(100); break;
                case 1: v = 0x80000000u + c.draw(100); break;
                case 2: v = 0x1000001u + c.draw(1000); break;
                case 3: v = c.draw((uint32_t)f.size() + 40); break;
                case 4: v = 0x7fffffffu - c.draw(100); break;
                default: v = c.range(1, 14); break;
            }
            std::string b;
            le(b, v);
            return f.replace(41, 4, b);
        }
        case 2:
        {
            what = "entry size";
            if (f.size() < 58) return f;
            std::string b;
            switch (c.draw(5))
            {
                case 0: le(b, 0xffffffffu - c.draw(20)); break;
                case 1: le(b, 0x80000000u + c.draw(20)); break;
                case 2: le(b, (uint32_t)(f.size() + c.draw(2000))); break;
                case 3: le(b, c.draw(64)); break;
                default: le(b, 0x100000u + c.draw(1000)); break;
            }
            return f.replace(54, 4, b);
        }
        case 3:
            what = "random";
            return gen_bytes(c, c.range(1, 300));
        case 4:
        {
            what = "bit flips";
            for (int k = (int)c.range(1, 4); k-- > 0;)
            {
                size_t i = c.draw((uint32_t)f.size());
                if (i == 0) i = f.size() - 1; // types are another case
                f[i] = (char)(f[i] ^ (1 << c.draw(8)));
            }
            return f;
        }
        case 5:
        {
            what = "insert";
            size_t i = c.range(1, (uint32_t)f.size());
            return f.insert(i, gen_bytes(c, c.range(1, 20)));
        }
        case 6:
        {
            what = "delete";
            size_t i = c.range(1, (uint32_t)f.size() - 1);
            return f.erase(i, c.range(1, 20));
        }
        case 7:
            what = "zeros";
            return std::string(c.range(1, 200), 0);
        default:
        {
            what = "entries cut";
            if (f.size() <= 45 + 1) return f;
            size_t keep = 45 + c.range(1, (uint32_t)(f.size() - 45 - 1));
            std::string b;
            le(b, (uint32_t)(keep - 45));
            f.resize(keep);
            return f.replace(41, 4, b);
        }
    }
}
void run_malformed(Case& c)
{
    struct conn
    {
        std::string bytes;
        parsed want;
        std::vector<rq> got;
        std::vector<rs> ans;
        int fd = -1;
        size_t sent = 0;
        bool shut = false;
        std::string what;
    };
    std::mutex l;
    std::vector<std::pair<rq, rs>> handled;
    pbt::rng g(c.seed32());
    g_handler = [&](raft_server*, req_msg& m) -> ptr<resp_msg> {
        std::lock_guard<std::mutex> lk(l);
        rs a;
        a.type = RESP_TYPES[g.below(9)];
        a.src = (int)g.next();
        a.dst = (int)g.next();
        a.term = g.next();
        a.next = g.next();
        a.acc = g.below(2);
        handled.push_back({of(m), a});
        return make(a);
    };
    int port = free_port();
    ptr<rpc_listener> ls = listener_at(port);
    ptr<msg_handler> h = dummy_handler();
    ls->listen(h);
    int n = (int)c.range(1, 4), bad = 0;
    ulong id = 1;
    std::vector<conn> cs((size_t)n);
    std::ostringstream log;
    for (int i = 0; i < n; ++i)
    {
        c.span_begin();
        int frames = (int)c.range(1, 4);
        for (int k = 0; k < frames; ++k)
        {
            rq q = gen_rq(c, id++, false);
            q.src = i;
            std::string f = wire(q);
            const char* what = "valid";
            if (c.draw(3) == 2)
            {
                f = mutate(c, f, what);
                ++bad;
            }
            if (cs[i].bytes.size() + f.size() > 300000) break;
            cs[i].bytes += f;
            log << " " << i << ":" << what;
        }
        cs[i].want = parse(cs[i].bytes);
        c.span_end();
    }
    for (auto& k : cs)
    {
        k.fd = dial(port);
        if (k.fd < 0) c.fail("refused", "the listener does not accept connections");
    }
    // send in fragments, connections interleaved
    bool dribble = c.draw(2);
    for (bool more = true; more;)
    {
        more = false;
        for (auto& k : cs)
        {
            if (k.sent >= k.bytes.size()) continue;
            size_t m = std::min(k.bytes.size() - k.sent, (size_t)(dribble ? (c.draw(3) ? c.range(1, 60) : c.range(1, 3000)) : k.bytes.size()));
            if (k.bytes.size() > 3000 && dribble) m = std::min(k.bytes.size() - k.sent, m * 64);
            if (!spew(k.fd, k.bytes.data() + k.sent, m))
            {
                k.sent = k.bytes.size(); // already dropped
                continue;
            }
            k.sent += m;
            more = more || k.sent < k.bytes.size();
        }
        if (dribble && c.draw(4) == 3) std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
    // every complete request is answered, then a broken connection is closed
    for (int i = 0; i < n; ++i)
    {
        conn& k = cs[(size_t)i];
        bool eof = false;
        size_t want = k.want.deliver.size() * 26;
        std::string got = slurp(k.fd, want, eof, LIMIT_S * 1000);
        // a reset may discard answers that the harness has not read yet
        if (got.size() < want && !(k.want.broken && eof))
            c.fail("not-answered", "connection %d: %zu of %zu answer bytes for %zu complete requests (%s)", i, got.size(), want, k.want.deliver.size(), eof ? "closed" : "time limit");
        if (k.want.broken)
        {
            std::string rest = slurp(k.fd, 1, eof, LIMIT_S * 1000);
            if (!rest.empty()) c.fail("answer-to-garbage", "connection %d: an answer was sent for malformed input", i);
            if (!eof) c.fail("not-dropped", "connection %d with malformed input was not dropped within %d s", i, LIMIT_S);
        }
        // the answers tell which requests were handled for this connection, in which order
        std::lock_guard<std::mutex> lk(l);
        for (size_t j = 0; (j + 1) * 26 <= got.size(); ++j)
        {
            const rq* q = nullptr;
            for (auto& x : handled)
                if (wire(x.second) == got.substr(j * 26, 26)) q = &x.first;
            if (!q) c.fail("response-changed", "connection %d: answer %zu is not what the handler returned", i, j);
            if (!(*q == k.want.deliver[j])) c.fail("request-changed", "connection %d: request %zu of the stream is %s, handled was %s", i, j, text(k.want.deliver[j]).c_str(), text(*q).c_str());
        }
        c.label(k.want.broken ? "dropped connections" : "kept connections");
        c.label("requests", k.want.deliver.size());
    }
    // all that was handled is what the streams contain
    {
        std::map<std::string, int> left;
        size_t all = 0;
        for (auto& k : cs)
            for (auto& q : k.want.deliver) ++left[wire(q)], ++all;
        eventually([&] {
            std::lock_guard<std::mutex> lk(l);
            return handled.size() >= all;
        });
        std::lock_guard<std::mutex> lk(l);
        for (auto& x : handled)
            if (left[wire(x.first)]-- <= 0) c.fail("garbage-handled", "a request was handled that the streams do not contain: %s", text(x.first).c_str());
        if (handled.size() < all) c.fail("not-handled", "%zu of %zu complete requests handled", handled.size(), all);
    }
    // and new connections work
    for (auto& k : cs)
    {
        close(k.fd);
    }
    {
        rq q;
        q.src = 99;
        q.commit = id++;
        int fd = dial(port);
        if (fd < 0) c.fail("refused", "the listener does not accept connections after malformed input");
        std::string f = wire(q);
        bool eof = false;
        std::string got;
        if (spew(fd, f.data(), f.size())) got = slurp(fd, 26, eof, LIMIT_S * 1000);
        close(fd);
        if (got.size() != 26) c.fail("unavailable", "a well-formed request on a new connection is not answered after malformed input on others");
        std::lock_guard<std::mutex> lk(l);
        if (!(handled.back().first == q)) c.fail("request-changed", "the last request was handled as %s", text(handled.back().first).c_str());
    }
    ls->stop();
    eventually([&] { return true; }, 1);
    std::lock_guard<std::mutex> lk(l);
    size_t all = 1;
    for (auto& k : cs) all += k.want.deliver.size();
    if (handled.size() > all) c.fail("garbage-handled", "%zu requests were handled, the streams contain %zu", handled.size(), all);
    if (bad) c.nontrivial();
    c.sample(std::to_string(n) + " connections:" + log.str());
    g_handler = [](raft_server*, req_msg&) { return ptr<resp_msg>(); };
}
// unknown message types reach a real raft_server through its listener: it has to survive them
void run_types(Case& c)
{
    g_handler = nullptr;
    static std::unique_ptr<mini::node> n;
    static int port;
    if (!n)
    {
        n.reset(new mini::node(1, {1, 2, 3}));
        n->start();
        n->mgr->on_exit = [] {
            fprintf(stderr, "the server shut itself down\n");
            _exit(3);
        };
        port = free_port();
        static ptr<rpc_listener> ls = listener_at(port);
        ptr<msg_handler> h(n->srv.get(), [](raft_server*) {});
        ls->listen(h);
    }
    int k = (int)c.range(1, 4);
    std::ostringstream log;
    for (int i = 0; i < k; ++i)
    {
        rq q = gen_rq(c, c.u64(), false);
        do q.type = c.draw(2) ? (int)c.draw(256) : (int)c.draw(22);
        while (is_req_type(q.type) && !c.replaying());
        if (is_req_type(q.type)) q.type = 0;
        int fd = dial(port);
        if (fd < 0) c.fail("refused", "the listener does not accept connections");
        std::string f = wire(q);
        spew(fd, f.data(), f.size());
        bool eof;
        slurp(fd, 26, eof, 300);
        close(fd);
        log << " " << q.type;
    }
    rq q; // a prevote request of an old term changes nothing
    q.type = 18;
    int fd = dial(port);
    std::string f = wire(q);
    bool eof = false;
    std::string got;
    if (fd >= 0 && spew(fd, f.data(), f.size())) got = slurp(fd, 26, eof, LIMIT_S * 1000);
    if (fd >= 0) close(fd);
    if (got.size() != 26) c.fail("unavailable", "the server does not answer after messages of unknown types");
    c.nontrivial();
    c.sample("types" + log.str());
    c.label("unknown types", (uint64_t)k);
}

// ---------------------------------------------------------------- C24: timers
struct tmodel
{
    struct sched
    {
        sclock::time_point begin, deadline;
        int ms;
        bool must = true;  // has to run: neither replaced nor cancelled
        bool may = true;   // may run: not withdrawn before its time or while no worker could run it
        bool trapped = false;
    };
    std::mutex l;
    std::vector<sched> ss;
    std::vector<sclock::time_point> shots;
    bool throws = false;
    std::vector<int> again; // delays with which it schedules itself from its own execution
    ptr<delayed_task> task;
};
struct gate
{
    std::mutex l;
    std::condition_variable cv;
    unsigned in = 0, out = 0;
    bool open = false;
};
void run_timers(Case& c)
{
    const unsigned workers = c.draw(2) ? 3 : 1;
    asio_service& svc = service(workers);
    int nt = (int)c.range(1, 5);
    std::vector<std::shared_ptr<tmodel>> ts;
    auto note = [](tmodel& m, int ms) { // before the schedule call: it may run before that returns
        tmodel::sched s;
        s.begin = sclock::now();
        s.ms = ms;
        s.deadline = s.begin + std::chrono::milliseconds(ms);
        m.ss.push_back(s);
    };
    auto schedule = [&svc, note](tmodel& m, int ms) { // not for concurrent use on one task
        {
            std::lock_guard<std::mutex> g(m.l);
            note(m, ms);
        }
        svc.schedule(m.task, ms);
    };
    for (int i = 0; i < nt; ++i)
    {
        auto m = std::make_shared<tmodel>();
        std::weak_ptr<tmodel> wm = m;
        timer_task<void>::executor ex = [wm, note, &svc] {
            auto now = sclock::now();
            auto m = wm.lock();
            if (!m) return;
            int ms = -1;
            {
                std::lock_guard<std::mutex> g(m->l);
                m->shots.push_back(now);
                if (!m->again.empty())
                {
                    ms = m->again.back();
                    m->again.pop_back();
                    note(*m, ms);
                }
            }
            if (ms >= 0) svc.schedule(m->task, ms);
            if (m->throws) throw std::runtime_error("task failed");
        };
        m->task = cs_new<timer_task<void>>(ex);
        m->throws = c.chance(1, 10);
        ts.push_back(m);
    }
    std::shared_ptr<gate> g;
    bool held_all = false; // nothing can run since `blocked_since`
    sclock::time_point blocked_since{};
    auto post = [&](const std::shared_ptr<gate>& gg) {
        timer_task<void>::executor ex = [gg] {
            std::unique_lock<std::mutex> lk(gg->l);
            ++gg->in;
            gg->cv.notify_all();
            gg->cv.wait(lk, [&] { return gg->open; });
            ++gg->out;
            gg->cv.notify_all();
        };
        ptr<delayed_task> t = cs_new<timer_task<void>>(ex);
        svc.schedule(t, 0);
    };
    auto arrive = [&](const std::shared_ptr<gate>& gg, unsigned n) {
        std::unique_lock<std::mutex> lk(gg->l);
        if (!gg->cv.wait_for(lk, std::chrono::seconds(LIMIT_S), [&] { return gg->in == n; })) c.fail("not-run", "only %u of %u tasks scheduled without delay ran within %d s", gg->in, n, LIMIT_S);
    };
    auto leave = [&](const std::shared_ptr<gate>& gg, unsigned n) {
        std::unique_lock<std::mutex> lk(gg->l);
        gg->open = true;
        gg->cv.notify_all();
        gg->cv.wait_for(lk, std::chrono::seconds(LIMIT_S), [&] { return gg->out == n; });
    };
    auto forget_traps = [&] {
        for (auto& t : ts)
        {
            std::lock_guard<std::mutex> lk(t->l);
            for (auto& s : t->ss) s.trapped = false;
        }
    };
    auto block = [&] {
        forget_traps();
        g = std::make_shared<gate>();
        for (unsigned i = 0; i < workers; ++i) post(g);
        arrive(g, workers);
        blocked_since = sclock::now();
        held_all = true;
    };
    auto unblock = [&] {
        if (!g) return;
        leave(g, workers);
        g.reset();
        held_all = false;
    };
    // the current schedule of a task is withdrawn, because the task was scheduled again or cancelled
    auto retire = [&](tmodel& m, tmodel::sched& s) {
        if (!s.must) return;
        s.must = false;
        bool in_time = sclock::now() < s.deadline;
        bool held = held_all && (s.trapped || blocked_since <= s.deadline);
        if (in_time || held) s.may = false;
    };
    std::ostringstream log;
    int steps = (int)c.range(1, 14), re = 0, cancels = 0, traps = 0;
    std::vector<bool> self((size_t)nt, false);
    auto again = [&](size_t k, int ms) { // schedule from outside
        tmodel& m = *ts[k];
        schedule(m, ms);
        std::lock_guard<std::mutex> lk(m.l);
        if (m.ss.size() > 1)
        {
            if (m.ss[m.ss.size() - 2].must) ++re;
            retire(m, m.ss[m.ss.size() - 2]);
        }
        log << " s" << k << "+" << ms;
    };
    for (int i = 0; i < steps; ++i)
    {
        c.span_begin();
        uint32_t op = c.pick({6, 3, 3, 2, 2, workers == 1 ? 3u : 0u, 1});
        size_t k = c.draw((uint32_t)nt);
        if (op == 0 && !self[k])
            again(k, (int)(c.draw(3) ? c.draw(12) : c.draw(60)));
        else if (op == 1 && !self[k])
        {
            tmodel& m = *ts[k];
            svc.cancel(m.task);
            std::lock_guard<std::mutex> lk(m.l);
            if (!m.ss.empty()) retire(m, m.ss.back());
            ++cancels;
            log << " c" << k;
        }
        else if (op == 2)
        {
            int us = (int)c.draw(15000);
            std::this_thread::sleep_for(std::chrono::microseconds(us));
            log << " w" << us / 1000;
        }
        else if (op == 3 && !g)
        {
            block();
            log << " [";
        }
        else if (op == 4 && g)
        {
            unblock();
            log << " ]";
        }
        else if (op == 5)
        {
            // the only worker finds several expired tasks at once, the first one keeps it busy
            if (!g) block();
            auto g2 = std::make_shared<gate>();
            post(g2);
            int n = (int)c.range(1, 3);
            log << " {";
            std::vector<size_t> in;
            for (int j = 0; j < n; ++j)
            {
                size_t q = c.draw((uint32_t)nt);
                if (self[q]) continue;
                again(q, 0);
                in.push_back(q);
            }
            leave(g, 1);
            arrive(g2, 1);
            g = g2;
            // whatever was due has expired, and can only run when the gate opens; other tasks are still waiting
            blocked_since = sclock::now();
            forget_traps();
            for (size_t q : in)
            {
                std::lock_guard<std::mutex> lk(ts[q]->l);
                ts[q]->ss.back().trapped = ts[q]->ss.back().must && ts[q]->shots.empty();
            }
            ++traps;
        }
        else if (op == 6 && ts[k]->ss.empty())
        {
            // a task that schedules itself again, as heartbeats do
            self[k] = true;
            for (int j = (int)c.range(1, 4); j-- > 0;) ts[k]->again.push_back((int)c.draw(8));
            schedule(*ts[k], (int)c.draw(8));
            log << " r" << k;
        }
        c.span_end();
    }
    unblock();
    // wait for everything that has to run
    eventually([&] {
        for (auto& t : ts)
        {
            std::lock_guard<std::mutex> lk(t->l);
            size_t must = 0;
            for (auto& s : t->ss) must += s.must;
            if (t->shots.size() < must || !t->again.empty()) return false;
        }
        return true;
    });
    auto last = sclock::now();
    for (auto& t : ts)
    {
        std::lock_guard<std::mutex> lk(t->l);
        for (auto& s : t->ss) last = std::max(last, s.deadline);
    }
    std::this_thread::sleep_until(last + std::chrono::milliseconds(3));
    int fired = 0;
    for (size_t k = 0; k < ts.size(); ++k)
    {
        tmodel& m = *ts[k];
        std::lock_guard<std::mutex> lk(m.l);
        if (m.ss.empty())
        {
            if (!m.shots.empty()) c.fail("ran-unscheduled", "a task that was never scheduled ran");
            continue;
        }
        std::ostringstream h;
        auto rel = [&](sclock::time_point t) { return (double)std::chrono::duration_cast<std::chrono::microseconds>(t - m.ss[0].begin).count() / 1000.0; };
        for (auto& s : m.ss) h << " schedule@" << rel(s.begin) << "+" << s.ms << "ms" << (s.must ? "" : s.may ? "(replaced or cancelled around its time)" : "(replaced or cancelled before)");
        for (auto& s : m.shots) h << " ran@" << rel(s);
        size_t must = 0, may = 0;
        for (auto& s : m.ss) must += s.must, may += s.may;
        if (m.shots.size() < must || !m.again.empty()) c.fail("not-run", "a scheduled task did not run within %d s:%s", LIMIT_S, h.str().c_str());
        if (m.shots.size() > may) c.fail("ran-too-often", "a task ran more often than it was due:%s", h.str().c_str());
        // every execution needs a due schedule of its own whose time has come
        std::vector<sclock::time_point> due, at = m.shots;
        for (auto& s : m.ss)
            if (s.may) due.push_back(s.deadline);
        std::sort(at.begin(), at.end());
        std::sort(due.begin(), due.end());
        for (size_t j = 0; j < at.size(); ++j)
            if (at[j] < due[j]) c.fail("ran-early", "a task ran before its time:%s", h.str().c_str());
        fired += (int)at.size();
    }
    if (fired && (re || cancels)) c.nontrivial();
    c.label("executions", (uint64_t)fired);
    c.label("reschedules", (uint64_t)re);
    c.label("cancellations", (uint64_t)cancels);
    c.label("expired while the worker was busy", (uint64_t)traps);
    c.sample(std::to_string(nt) + " tasks, " + std::to_string(workers) + " workers:" + log.str());
}

// ---------------------------------------------------------------- C25: log files and stop
template <typename F>
void must_return(Case& c, const char* key, const char* what, F f)
{
    auto done = std::make_shared<std::pair<std::mutex, std::condition_variable>>();
    auto flag = std::make_shared<bool>(false);
    std::thread t([=] {
        f();
        std::lock_guard<std::mutex> g(done->first);
        *flag = true;
        done->second.notify_all();
    });
    std::unique_lock<std::mutex> lk(done->first);
    if (!done->second.wait_for(lk, std::chrono::seconds(LIMIT_S), [&] { return *flag; })) c.fail(key, "%s did not return within %d s", what, LIMIT_S);
    lk.unlock();
    t.join();
}
void run_logs(Case& c)
{
    util::scratch dir;
    time_t t0 = time(nullptr);
    g_cpus = c.range(1, 4);
    int ns = c.draw(3) == 2 ? (int)c.range(2, 12) : 1; // services
    int when = (int)c.pick({5, 4, 1});                 // stop at once, soon, or around the periodic flush
    int total = 0, stops = 0;
    struct lg
    {
        ptr<logger> l;
        int level;
        std::string file;
        std::vector<std::vector<std::pair<int, std::string>>> lines; // per thread: level, text
    };
    struct svc
    {
        std::unique_ptr<asio_service> s;
        std::vector<lg> ls;
        int threads, stops;
    };
    std::vector<svc> ss((size_t)ns);
    pbt::rng g(c.seed32());
    for (int i = 0; i < ns; ++i)
    {
        svc& s = ss[(size_t)i];
        s.s.reset(new asio_service());
        int nl = (int)c.draw(ns > 1 ? 2 : 4);
        s.threads = (int)c.range(1, 3);
        s.stops = (int)c.range(1, 3);
        for (int k = 0; k < nl; ++k)
        {
            lg l;
            l.level = (int)c.draw(4);
            l.file = dir.path + "/" + std::to_string(i) + "_" + std::to_string(k);
            l.l = s.s->create_logger((asio_service::log_level)l.level, l.file);
            l.lines.resize((size_t)s.threads);
            s.ls.push_back(l);
        }
    }
    int lines = (int)(c.draw(3) ? c.draw(20) : c.draw(400));
    auto write = [&](svc& s, int t, pbt::rng gg) {
        t_skew = skew_of(t); // each thread lives in a time of its own
        for (int k = 0; k < lines && !s.ls.empty(); ++k)
        {
            lg& l = s.ls[gg.below((uint32_t)s.ls.size())];
            int level = (int)gg.below(4);
            std::string x = "t" + std::to_string(t) + ":" + std::to_string(k) + ":";
            size_t n = gg.chance(1, 8) ? gg.below(3000) : gg.below(30);
            if (gg.chance(1, 6))
                x += "%s%d%n%%";
            for (size_t j = 0; j < n; ++j)
            {
                char ch = (char)gg.next();
                x.push_back(ch == '\n' ? ' ' : ch);
            }
            if (level == 0) l.l->debug(x);
            if (level == 1) l.l->info(x);
            if (level == 2) l.l->warn(x);
            if (level == 3) l.l->err(x);
            l.lines[(size_t)t].push_back({level, x});
            if (gg.chance(1, 64)) std::this_thread::yield();
        }
        t_skew = 0;
    };
    std::vector<std::thread> th;
    for (auto& s : ss)
        for (int t = 0; t < s.threads; ++t)
        {
            pbt::rng gg(g.next());
            th.emplace_back([&write, &s, t, gg] { write(s, t, gg); });
        }
    for (auto& t : th) t.join();
    th.clear();
    if (when == 1) std::this_thread::sleep_for(std::chrono::microseconds(c.draw(5000)));
    if (when == 2)
    {
        // the services flush after one second
        std::this_thread::sleep_for(std::chrono::milliseconds(c.range(985, 1000)));
        for (auto& s : ss)
            for (int t = 0; t < s.threads; ++t) write(s, t, pbt::rng(g.next()));
        std::this_thread::sleep_for(std::chrono::microseconds(c.draw(4000)));
    }
    bool wide = c.draw(2);
    must_return(c, "stop-hangs", "stopping the service", [&] {
        std::vector<std::thread> st;
        for (auto& s : ss)
        {
            asio_service* p = s.s.get();
            for (int k = 0; k < s.stops; ++k)
                if (k == 0 && !wide)
                    p->stop();
                else
                    st.emplace_back([p] { p->stop(); });
        }
        for (auto& t : st) t.join();
        for (auto& s : ss) s.s->stop();
    });
    for (auto& s : ss) stops += s.stops;
    static const char* tags[] = {"dbug", "info", "warn", "errr"};
    for (auto& s : ss)
        for (auto& l : s.ls)
        {
            // what the file holds when the service is stopped
            std::vector<std::string> want_first;
            auto content = [&] {
                std::ifstream f(l.file, std::ios::binary);
                std::stringstream b;
                b << f.rdbuf();
                return b.str();
            };
            size_t expected = 0;
            for (auto& v : l.lines)
                for (auto& x : v) expected += x.first >= l.level;
            auto count = [&](const std::string& t) { return (size_t)std::count(t.begin(), t.end(), '\n'); };
            std::string text = content();
            if (s.stops > 1 && wide) // a second concurrent stop may return while the first one still flushes
                eventually([&] { return count(text = content()) >= expected; }, 5000);
            std::istringstream in(text);
            std::string line;
            std::vector<size_t> next(l.lines.size(), 0);
            size_t seen = 0;
            while (std::getline(in, line))
            {
                // date \t [thread] \t level \t text
                size_t a = line.find('\t'), b = a == std::string::npos ? a : line.find('\t', a + 1), d = b == std::string::npos ? b : line.find('\t', b + 1);
                if (d == std::string::npos) c.fail("torn-line", "a line of the log file is not complete: %s", line.substr(0, 200).c_str());
                std::string tag = line.substr(b + 1, d - b - 1), x = line.substr(d + 1);
                struct tm when_logged = {};
                int ms = -1;
                if (sscanf(line.c_str(), "%d/%d/%d %d:%d:%d.%d\t", &when_logged.tm_mon, &when_logged.tm_mday, &when_logged.tm_year, &when_logged.tm_hour, &when_logged.tm_min, &when_logged.tm_sec, &ms) != 7 || ms < 0 || ms > 999)
                    c.fail("line-time", "a line starts with no time: %s", line.substr(0, 60).c_str());
                when_logged.tm_mon -= 1;
                when_logged.tm_year -= 1900;
                time_t tl = timegm(&when_logged), t1 = time(nullptr);
                size_t t = x.size() > 1 && x[0] == 't' ? (size_t)atoi(x.c_str() + 1) : 9999;
                if (t >= next.size()) c.fail("foreign-line", "a line nobody logged: %s", x.substr(0, 200).c_str());
                tl -= skew_of((int)t);
                if (tl < t0 - 1 || tl > t1 + 1) c.fail("line-time", "a line that thread %zu, whose clock is %lld s ahead, logged now (%lld to %lld) is stamped %s", t, (long long)skew_of((int)t), (long long)t0, (long long)t1, line.substr(0, a).c_str());
                while (next[t] < l.lines[t].size() && l.lines[t][next[t]].first < l.level) ++next[t];
                if (next[t] >= l.lines[t].size()) c.fail("extra-line", "a line was written again or is below the level: %s", x.substr(0, 200).c_str());
                if (l.lines[t][next[t]].second != x)
                    c.fail("line-order", "thread %zu logged '%s' next, the file has '%s'", t, l.lines[t][next[t]].second.substr(0, 100).c_str(), x.substr(0, 100).c_str());
                if (tag != tags[l.lines[t][next[t]].first]) c.fail("line-level", "a line logged as %s is tagged %s", tags[l.lines[t][next[t]].first], tag.c_str());
                ++next[t];
                ++seen;
            }
            if (!text.empty() && text.back() != '\n') c.fail("torn-line", "the log file ends within a line");
            if (seen != expected) c.fail("lost-line", "%zu of %zu lines are in the file after the service was stopped", seen, expected);
            total += (int)seen;
        }
    must_return(c, "destroy-hangs", "destroying the service", [&] { ss.clear(); });
    if (total || stops > ns) c.nontrivial();
    c.label("lines", (uint64_t)total);
    c.label("services", (uint64_t)ns);
    c.label(when == 0 ? "stop at once" : when == 1 ? "stop soon" : "stop at flush");
    c.sample(std::to_string(ns) + " services, " + std::to_string((int)g_cpus) + " workers, " + std::to_string(total) + " lines, " + std::to_string(stops) + " stops");
}

void reg(const char* id, const char* rule, std::function<void(Case&)> f, uint64_t quick, uint64_t thorough, uint32_t batch, uint32_t workers = 0)
{
    pbt::add({id, rule, f, quick, thorough, batch, 60, 90, workers, 30});
}
} // namespace

int main(int argc, char** argv)
{
    reg("C22", "1-4 clients and 1-2 listeners over loopback: single and concurrent requests with random fields and entries, slow, dropping and throwing handlers, absent and late listeners, foreign peers that answer partially; every completion, handled request and response compared; non-trivial: at least 2 answers", run_transport, 8000, 200000, 20);
    reg("C23", "1-4 raw connections with valid and mutated frames (truncated, wrong sizes, wrong entry lengths, random bytes, bit flips, insertions, deletions), sent whole or in fragments, judged by a reference parser; message types that belong to no request sent to a real server; non-trivial: at least one mutated frame", [](Case& c) { if (c.draw(10) == 9) run_types(c); else run_malformed(c); }, 30000, 800000, 20);
    reg("C24", "1-5 tasks, random schedule, cancel and wait steps, also while every worker is occupied; executions compared with the due times; non-trivial: an execution, and a reschedule or cancellation", run_timers, 7000, 150000, 10, 24);
    reg("C25", "1-12 services, up to 3 loggers and 3 threads, random lines and levels, stopped at once, soon or around the periodic flush, up to 3 times and concurrently; files compared line by line; non-trivial: lines written or more than one stop", run_logs, 2500, 40000, 10);
    return pbt::main_loop(argc, argv);
}
