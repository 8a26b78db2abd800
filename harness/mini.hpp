// A raft_server with in-memory stand-ins: log, state manager, state machine, manual timers and manual message delivery.
#pragma once
#include "cornerstone.hxx"
#include <algorithm>
#include <atomic>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>

namespace mini
{
using namespace cornerstone;

inline bufptr to_buf(const std::string& s)
{
    bufptr b = buffer::alloc(s.size());
    memcpy(b->data(), s.data(), s.size());
    return b;
}
inline std::string of_buf(buffer& b) { return std::string(reinterpret_cast<const char*>(b.data()) - b.pos(), b.size()); }
inline ptr<log_entry> entry(ulong term, const std::string& s, log_val_type t = log_val_type::app_log) { return cs_new<log_entry>(term, to_buf(s), t); }
inline ptr<log_entry> clone(const ptr<log_entry>& e) { return entry(e->get_term(), of_buf(e->get_buf()), e->get_val_type()); }

class mlog : public log_store
{
public:
    mutable std::recursive_mutex l;
    ulong start = 1;
    std::vector<ptr<log_entry>> v;
    ulong next_slot() const override
    {
        std::lock_guard<std::recursive_mutex> g(l);
        return start + v.size();
    }
    ulong start_index() const override
    {
        std::lock_guard<std::recursive_mutex> g(l);
        return start;
    }
    ptr<log_entry> last_entry() const override
    {
        std::lock_guard<std::recursive_mutex> g(l);
        return v.empty() ? entry(0, "") : v.back();
    }
    ulong append(ptr<log_entry>& e) override
    {
        std::lock_guard<std::recursive_mutex> g(l);
        v.push_back(clone(e));
        if (e->get_cookie()) v.back()->set_cookie(e->get_cookie()->tag(), e->get_cookie()->value());
        return start + v.size() - 1;
    }
    void write_at(ulong i, ptr<log_entry>& e) override
    {
        std::lock_guard<std::recursive_mutex> g(l);
        if (i < start || i > start + v.size()) throw std::range_error("index out of range");
        v.resize((size_t)(i - start));
        append(e);
    }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong a, ulong b) override
    {
        std::lock_guard<std::recursive_mutex> g(l);
        if (a < start) throw std::range_error("index out of range");
        auto r = cs_new<std::vector<ptr<log_entry>>>();
        for (ulong i = a; i < b && i < start + v.size(); ++i) r->push_back(v[(size_t)(i - start)]);
        return r->empty() ? ptr<std::vector<ptr<log_entry>>>() : r;
    }
    ptr<log_entry> entry_at(ulong i) override
    {
        std::lock_guard<std::recursive_mutex> g(l);
        if (i < start) throw std::range_error("index out of range");
        return i < start + v.size() ? v[(size_t)(i - start)] : ptr<log_entry>();
    }
    ulong term_at(ulong i) override
    {
        std::lock_guard<std::recursive_mutex> g(l);
        if (i < start || i >= start + v.size()) throw std::range_error("index out of range");
        return v[(size_t)(i - start)]->get_term();
    }
    bufptr pack(ulong i, int32 cnt) override
    {
        std::lock_guard<std::recursive_mutex> g(l);
        std::vector<bufptr> bs;
        size_t sz = sz_int;
        for (ulong k = i; k < i + (ulong)cnt && k < start + v.size(); ++k)
        {
            bs.push_back(clone(entry_at(k))->serialize());
            sz += sz_int + bs.back()->size();
        }
        bufptr r = buffer::alloc(sz);
        r->put((int32)bs.size());
        for (auto& b : bs)
        {
            r->put((int32)b->size());
            r->put(*b);
        }
        r->pos(0);
        return r;
    }
    void apply_pack(ulong i, buffer& p) override
    {
        std::lock_guard<std::recursive_mutex> g(l);
        int32 n = p.get_int();
        v.resize((size_t)(i - start));
        while (n--)
        {
            bufptr b = buffer::alloc((size_t)p.get_int());
            p.get(b);
            b->pos(0);
            v.push_back(log_entry::deserialize(*b));
        }
    }
    bool compact(ulong i) override
    {
        std::lock_guard<std::recursive_mutex> g(l);
        if (i < start) throw std::range_error("index out of range");
        if (i + 1 >= start + v.size())
            v.clear();
        else
            v.erase(v.begin(), v.begin() + (long)(i + 1 - start));
        start = i + 1;
        return true;
    }
};

class msm : public state_machine
{
public:
    std::mutex l;
    std::vector<std::pair<ulong, std::string>> commits, pres, rollbacks;
    ulong last = 0;
    ptr<snapshot> snp;
    std::string snp_data, incoming;
    std::function<void(ulong)> on_commit;
    bool async_snapshots = false;
    std::vector<std::function<void()>> pending_snapshots;
    int applied_snapshots = 0;
    ulong installed = 0; // highest snapshot that was installed
    void commit(const ulong i, buffer& b, const uptr<log_entry_cookie>&) override
    {
        if (on_commit) on_commit(i);
        std::lock_guard<std::mutex> g(l);
        commits.emplace_back(i, of_buf(b));
        last = i;
    }
    void pre_commit(const ulong i, buffer& b, const uptr<log_entry_cookie>&) override
    {
        std::lock_guard<std::mutex> g(l);
        pres.emplace_back(i, of_buf(b));
    }
    void rollback(const ulong i, buffer& b, const uptr<log_entry_cookie>&) override
    {
        std::lock_guard<std::mutex> g(l);
        rollbacks.emplace_back(i, of_buf(b));
    }
    void save_snapshot_data(snapshot&, const ulong off, buffer& b) override
    {
        std::lock_guard<std::mutex> g(l);
        std::string d(reinterpret_cast<const char*>(b.data()), b.size() - b.pos());
        if (incoming.size() < off + d.size()) incoming.resize((size_t)off + d.size());
        incoming.replace((size_t)off, d.size(), d);
    }
    bool apply_snapshot(snapshot& s) override
    {
        std::lock_guard<std::mutex> g(l);
        ++applied_snapshots;
        installed = std::max(installed, s.get_last_log_idx());
        snp_data = incoming;
        bufptr b = s.serialize();
        snp = snapshot::deserialize(*b);
        last = s.get_last_log_idx();
        return true;
    }
    int read_snapshot_data(snapshot&, const ulong off, buffer& b) override
    {
        std::lock_guard<std::mutex> g(l);
        if (off >= snp_data.size()) return 0;
        size_t n = std::min(b.size() - b.pos(), snp_data.size() - (size_t)off);
        memcpy(b.data(), snp_data.data() + off, n);
        return (int)n;
    }
    ptr<snapshot> last_snapshot() override
    {
        std::lock_guard<std::mutex> g(l);
        return snp;
    }
    ulong last_commit_index() override
    {
        std::lock_guard<std::mutex> g(l);
        return last;
    }
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& done) override
    {
        std::string d = "=\n"; // a snapshot is never empty
        ptr<snapshot> made;
        {
            std::lock_guard<std::mutex> g(l);
            for (auto& c : commits)
                if (c.first <= s.get_last_log_idx()) d += std::to_string(c.first) + "=" + c.second + "\n";
            bufptr b = s.serialize();
            ptr<snapshot> t = snapshot::deserialize(*b);
            made = cs_new<snapshot>(t->get_last_log_idx(), t->get_last_log_term(), t->get_last_config(), (ulong)d.size());
        }
        auto finish = [this, d, made, done]() mutable {
            {
                std::lock_guard<std::mutex> g(l);
                // what was installed meanwhile is newer
                if (!snp || snp->get_last_log_idx() <= made->get_last_log_idx())
                {
                    snp_data = d;
                    snp = made;
                }
            }
            bool ok = true;
            done(ok, ptr<std::exception>());
        };
        if (async_snapshots)
        {
            std::lock_guard<std::mutex> g(l);
            pending_snapshots.push_back(finish);
        }
        else
            finish();
    }
};

class mmgr : public state_mgr
{
public:
    int32 id;
    ptr<mlog> log;
    ptr<cluster_config> conf;
    std::vector<std::pair<ulong, int>> states; // every saved (term, vote)
    int exits = 0;
    std::function<void()> on_exit;
    mmgr(int32 i, const std::vector<int>& members) : id(i), log(cs_new<mlog>()), conf(cs_new<cluster_config>())
    {
        for (int m : members) conf->get_servers().push_back(cs_new<srv_config>(m, "s" + std::to_string(m)));
    }
    static ptr<cluster_config> copy(const cluster_config& c)
    {
        bufptr b = const_cast<cluster_config&>(c).serialize();
        return cluster_config::deserialize(*b);
    }
    ptr<cluster_config> load_config() override { return copy(*conf); }
    void save_config(const cluster_config& c) override { conf = copy(c); }
    void save_state(const srv_state& s) override { states.emplace_back(s.get_term(), s.get_voted_for()); }
    ptr<srv_state> read_state() override
    {
        if (states.empty()) return ptr<srv_state>();
        auto s = cs_new<srv_state>();
        s->set_term(states.back().first);
        s->set_voted_for(states.back().second);
        return s;
    }
    ptr<log_store> load_log_store() override { return log; }
    int32 server_id() override { return id; }
    void system_exit(const int) override
    {
        ++exits;
        if (on_exit) on_exit();
    }
};

struct message
{
    std::string to;
    ptr<req_msg> req;
    rpc_handler done;
};
struct post
{
    std::mutex l;
    std::deque<message> q;
};
class mcli : public rpc_client
{
public:
    std::string ep;
    ptr<post> p;
    mcli(const std::string& e, const ptr<post>& q) : ep(e), p(q) {}
    void send(ptr<req_msg>& req, rpc_handler& done) override
    {
        std::lock_guard<std::mutex> g(p->l);
        p->q.push_back(message{ep, req, done});
    }
};
class mfactory : public rpc_client_factory
{
public:
    ptr<post> p;
    explicit mfactory(const ptr<post>& q) : p(q) {}
    ptr<rpc_client> create_client(const std::string& ep) override { return cs_new<mcli>(ep, p); }
};
class msched : public delayed_task_scheduler
{
public:
    std::mutex l;
    std::vector<std::pair<ptr<delayed_task>, int>> tasks; // pending, with delay
    void schedule(ptr<delayed_task>& t, int32 ms) override
    {
        std::lock_guard<std::mutex> g(l);
        t->reset();
        erase(t.get());
        tasks.emplace_back(t, ms);
    }
    bool fire(delayed_task* t)
    {
        ptr<delayed_task> k;
        {
            std::lock_guard<std::mutex> g(l);
            for (auto& x : tasks)
                if (x.first.get() == t) k = x.first;
            erase(t);
        }
        if (k) k->execute();
        return (bool)k;
    }
    size_t pending()
    {
        std::lock_guard<std::mutex> g(l);
        return tasks.size();
    }
    ptr<delayed_task> at(size_t i)
    {
        std::lock_guard<std::mutex> g(l);
        return tasks[i].first;
    }

private:
    void erase(delayed_task* t)
    {
        for (size_t i = 0; i < tasks.size();)
            if (tasks[i].first.get() == t)
                tasks.erase(tasks.begin() + (long)i);
            else
                ++i;
    }
    void cancel_impl(ptr<delayed_task>& t) override
    {
        std::lock_guard<std::mutex> g(l);
        erase(t.get());
    }
};
class mlogger : public logger
{
public:
    bool on = getenv("MINI_LOG") != nullptr;
    int id;
    explicit mlogger(int i) : id(i) {}
    void out(const char* l, const std::string& s)
    {
        if (on) fprintf(stderr, "S%d %s %s\n", id, l, s.c_str());
    }
    void debug(const std::string& s) override { out("debug", s); }
    void info(const std::string& s) override { out("info", s); }
    void warn(const std::string& s) override { out("warn", s); }
    void err(const std::string& s) override { out("err", s); }
};

struct node
{
    int id;
    ptr<mmgr> mgr;
    ptr<msm> sm;
    ptr<msched> timers;
    ptr<post> out; // messages it sent
    std::unique_ptr<raft_server> srv;
    std::function<void(raft_params&)> tune;
    node(int i, const std::vector<int>& members) : id(i), mgr(cs_new<mmgr>(i, members)), sm(cs_new<msm>()), timers(cs_new<msched>()), out(cs_new<post>()) {}
    void start()
    {
        raft_params* p = new raft_params();
        if (tune) tune(*p);
        timers = cs_new<msched>();
        out = cs_new<post>();
        srv.reset(new raft_server(new context(mgr, sm, ptr<rpc_listener>(), cs_new<mlogger>(id), cs_new<mfactory>(out), timers, ptr<raft_event_listener>(), p)));
    }
    // the election timer is what a follower has pending
    void election() { if (timers->pending()) timers->fire(timers->at(0).get()); }
    ptr<resp_msg> ask(ulong term, msg_type t, int from, ulong last_term, ulong last_idx, ulong commit, const std::vector<ptr<log_entry>>& es = {})
    {
        req_msg r(term, t, from, id, last_term, last_idx, commit);
        for (auto& e : es) r.log_entries().push_back(clone(e));
        return srv->process_req(r);
    }
    bool take(message& m)
    {
        std::lock_guard<std::mutex> g(out->l);
        if (out->q.empty()) return false;
        m = out->q.front();
        out->q.pop_front();
        return true;
    }
    static void answer(message& m, ptr<resp_msg> r) { m.done(r, ptr<rpc_exception>()); }
    static void lose(message& m)
    {
        ptr<resp_msg> none;
        m.done(none, cs_new<rpc_exception>("lost", m.req));
    }
};
// deliver one message of `from` to `to` and the answer back
inline void deliver(message& m, node& to)
{
    req_msg r(m.req->get_term(), m.req->get_type(), m.req->get_src(), m.req->get_dst(), m.req->get_last_log_term(), m.req->get_last_log_idx(), m.req->get_commit_idx());
    for (auto& e : m.req->log_entries()) r.log_entries().push_back(clone(e));
    ptr<resp_msg> resp = to.srv->process_req(r);
    node::answer(m, resp);
}
} // namespace mini
