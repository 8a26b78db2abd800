// One real raft_server used by several threads at once (C33): messages, responses, timers, client calls, membership calls
// and snapshot completions under generated schedules.
#include "conc.hpp"
#include "mini.hpp"
#include "sched.hpp"
#include <algorithm>
#include <thread>

using namespace cornerstone;
using namespace mini;
using pbt::Case;

namespace
{
struct act
{
    uint32_t kind, a, b;
};
struct crowd
{
    Case& c;
    std::unique_ptr<node> n;
    std::string hist;
    int members = 1;
    bool follower = false; // the harness plays leader 2 of term 5
    static constexpr ulong lead_term = 5;
    std::mutex feed_lock;
    std::vector<std::string> flog; // of that leader; empty: configuration
    ulong fcommit = 0, acked_commit = 0, last_conf = 0;
    bool four = false;
    int serial = 0;
    ulong announced = 0; // highest commit index the server told anybody
    std::vector<ptr<async_result<bool>>> results;
    size_t done_ops = 0;
    bool joining = false;
    std::set<std::string> taken, refused; // commands the server said it took or refused

    explicit crowd(Case& cc) : c(cc) {}
    void op(const std::string& s)
    {
        sched::quiet q;
        hist += "[" + std::to_string(sched::self()) + "] " + s + "; ";
        if (pbt::verbose()) fprintf(stderr, "[%d] %s\n", sched::self(), s.c_str());
    }
    [[noreturn]] void bad(const char* key, const std::string& m)
    {
        c.fail(key, "%s\n%s\nswitches: %s", m.c_str(), hist.c_str(), sched::trace().c_str());
        abort();
    }
    std::string fresh(const char* p)
    {
        sched::quiet q;
        return p + std::to_string(++serial);
    }
    ptr<cluster_config> conf(ulong idx, ulong prev)
    {
        auto cc = cs_new<cluster_config>(idx, prev);
        for (int m = 1; m <= members; ++m) cc->get_servers().push_back(cs_new<srv_config>(m, "s" + std::to_string(m)));
        if (four) cc->get_servers().push_back(cs_new<srv_config>(9, "s9"));
        return cc;
    }
    void boot()
    {
        members = (int)c.one_of<uint32_t>({3, 3, 2, 4, 1});
        follower = members > 1 && c.chance(1, 2);
        std::vector<int> ids;
        for (int i = 1; i <= members; ++i) ids.push_back(i);
        n.reset(new node(1, ids));
        int dist = c.chance(1, 2) ? (int)c.range(1, 5) : 0, keep = (int)c.draw(3), block = (int)c.range(3, 40), most = (int)c.one_of<uint32_t>({1, 3, 100});
        bool pre = c.chance(1, 4);
        n->sm->async_snapshots = c.chance(1, 2);
        n->tune = [=](raft_params& p) {
            p.with_snapshot_enabled(dist).with_reserved_log_items(keep).with_snapshot_sync_block_size(block).with_max_append_size(most);
            p.with_prevote_enabled(pre);
            p.with_log_sync_stopping_gap(2).with_log_sync_batch_size(3);
        };
        n->mgr->on_exit = [this] { bad("exit", "the server asked to stop the process"); };
        uint32_t work = c.draw(4);
        n->sm->on_commit = [work](ulong) {
            for (uint32_t k = 0; k < work * 6; ++k) sched::point();
        };
        op("cluster of " + std::to_string(members) + (follower ? ", follows" : ", leads") + ", snapshot distance " + std::to_string(dist) + (n->sm->async_snapshots ? " (completed later)" : "") + (pre ? ", prevotes" : ""));
        n->start();
        if (follower)
        {
            feed(1 + c.draw(4), c.draw(2), true);
        }
        else
        {
            n->election();
            for (int k = 0; k < 12 && !messages(); ++k) sched::point();
            for (int k = 0; k < 24 && messages(); ++k) respond(0, 0);
            uint32_t k = c.draw(4);
            while (k--) client(1 + c.draw(2));
            k = c.draw(12);
            while (k-- && messages()) respond(0, c.draw(12));
        }
        if (c.chance(1, 2)) sched::let_others_run();
        if (n->sm->async_snapshots && dist && c.chance(1, 2))
        {
            // one snapshot is there, the next one is being made
            sched::let_others_run();
            snapshot_done();
            if (follower)
                feed(1 + c.draw(3), 0, false);
            else
            {
                client(1 + c.draw(3));
                for (int k = 0; k < 12 && messages(); ++k) respond(0, 0);
            }
            if (c.chance(3, 4)) sched::let_others_run();
        }
    }
    void snapshot_done()
    {
        std::function<void()> f;
        {
            std::lock_guard<std::mutex> g(n->sm->l);
            if (n->sm->pending_snapshots.empty()) return;
            f = n->sm->pending_snapshots.front();
            n->sm->pending_snapshots.erase(n->sm->pending_snapshots.begin());
        }
        op("snapshot completed");
        f();
    }
    size_t messages()
    {
        std::lock_guard<std::mutex> g(n->out->l);
        return n->out->q.size();
    }
    // ---- actions
    void client(uint32_t k)
    {
        req_msg r(0, msg_type::client_request, 0, 1, 0, 0, 0);
        std::vector<std::string> cmds;
        while (k--)
        {
            sched::quiet q;
            cmds.push_back(fresh("c"));
            r.log_entries().push_back(entry(0, cmds.back()));
        }
        op("client request of " + cmds[0] + (cmds.size() > 1 ? ".." + cmds.back() : ""));
        auto x = n->srv->process_req(r);
        if (!x) bad("none", "a client request got no response");
        op(std::string("client request ") + (x->get_accepted() ? "accepted" : "refused"));
        sched::quiet q;
        (x->get_accepted() ? taken : refused).insert(cmds.begin(), cmds.end());
    }
    void forward(uint32_t k)
    {
        std::vector<bufptr> v;
        while (k--) v.push_back(to_buf(fresh("a")));
        op("append_entries");
        auto r = n->srv->append_entries(v);
        if (!r) bad("none", "append_entries returned nothing");
        sched::quiet q;
        results.push_back(r);
    }
    void timer(uint32_t a)
    {
        size_t k = n->timers->pending();
        if (!k) return;
        ptr<delayed_task> t;
        {
            std::lock_guard<std::mutex> g(n->timers->l);
            if (n->timers->tasks.empty()) return;
            t = n->timers->tasks[a % n->timers->tasks.size()].first;
        }
        op("timer");
        n->timers->fire(t.get());
    }
    void respond(uint32_t a, uint32_t b)
    {
        message m;
        {
            std::lock_guard<std::mutex> g(n->out->l);
            if (n->out->q.empty()) return;
            size_t i = a % n->out->q.size();
            m = n->out->q[i];
            n->out->q.erase(n->out->q.begin() + (long)i);
        }
        req_msg& q = *m.req;
        {
            sched::quiet s;
            if (q.get_src() == 1 && q.get_type() != msg_type::client_request && q.get_commit_idx() > announced) announced = q.get_commit_idx();
        }
        ulong term = q.get_term();
        if (b == 9)
        {
            op("message lost");
            return node::lose(m);
        }
        bool yes = b != 10;
        if (b == 11) term += 1 + a % 2, yes = false;
        ptr<resp_msg> r;
        int32 from = q.get_dst();
        ulong next = 1;
        msg_type t = msg_type::vote_response;
        switch (q.get_type())
        {
            case msg_type::vote_request: break;
            case msg_type::prevote_request: t = msg_type::prevote_response; break;
            case msg_type::append_entries_request:
                t = msg_type::append_entries_response;
                next = yes ? q.get_last_log_idx() + q.log_entries().size() + 1 : 1 + a % (q.get_last_log_idx() + 1);
                break;
            case msg_type::install_snapshot_request:
            {
                t = msg_type::install_snapshot_response;
                auto e = clone(q.log_entries().at(0));
                e->get_buf().pos(0);
                auto s = snapshot_sync_req::deserialize(e->get_buf());
                next = yes ? s->get_offset() + s->get_data().size() : 0;
                break;
            }
            case msg_type::join_cluster_request: t = msg_type::join_cluster_response; break;
            case msg_type::leave_cluster_request: t = msg_type::leave_cluster_response; break;
            case msg_type::sync_log_request:
            {
                t = msg_type::sync_log_response;
                auto e = clone(q.log_entries().at(0));
                e->get_buf().pos(0);
                next = q.get_last_log_idx() + 1 + (ulong)e->get_buf().get_int();
                break;
            }
            case msg_type::client_request:
                t = msg_type::append_entries_response;
                term = lead_term;
                from = 2;
                break;
            case msg_type::add_server_request: t = msg_type::add_server_response; from = 2; term = lead_term; break;
            case msg_type::remove_server_request: t = msg_type::remove_server_response; from = 2; term = lead_term; break;
            default: return node::lose(m);
        }
        r = cs_new<resp_msg>(term, t, from, 1, next);
        if (yes) r->accept(next);
        op("response of " + std::to_string(from) + " to message " + std::to_string((int)q.get_type()) + (yes ? "" : ": no") + " next " + std::to_string(next) + " term " + std::to_string(term));
        node::answer(m, r);
    }
    void feed(uint32_t k, ulong gap, bool with_conf)
    {
        std::lock_guard<std::mutex> g(feed_lock); // one leader
        std::vector<ptr<log_entry>> es;
        ulong prev = flog.size();
        for (uint32_t i = 0; i < k; ++i)
        {
            if (with_conf && i == 0)
            {
                if (last_conf > fcommit) fcommit = last_conf;
                if (last_conf) four = !four;
                auto cc = conf(prev + 1, last_conf);
                last_conf = prev + 1;
                bufptr b = cc->serialize();
                flog.emplace_back();
                confs[last_conf] = of_buf(*b);
                es.push_back(cs_new<log_entry>(lead_term, std::move(b), log_val_type::conf));
            }
            else
            {
                flog.push_back(fresh("f"));
                es.push_back(entry(lead_term, flog.back()));
            }
        }
        if (flog.size() > gap && flog.size() - gap > fcommit) fcommit = flog.size() - gap;
        op("append " + std::to_string(prev + 1) + ".." + std::to_string(flog.size()) + (with_conf ? " with a configuration" : "") + ", commit " + std::to_string(fcommit));
        for (int tries = 0; tries < 60; ++tries)
        {
            ptr<resp_msg> r = n->ask(lead_term, msg_type::append_entries_request, 2, prev ? lead_term : 0, prev, fcommit, es);
            if (!r) bad("none", "an append got no response");
            if (r->get_term() > lead_term) return;
            if (!r->get_accepted())
            {
                // the follower has less, start again from there
                ulong nx = std::max<ulong>(1, std::min<ulong>(r->get_next_idx(), prev));
                if (prev == 0) bad("refused", "an append from the first index was refused");
                while (prev >= nx)
                {
                    es.insert(es.begin(), at(prev));
                    --prev;
                }
                continue;
            }
            ulong next = r->get_next_idx();
            if (next <= prev || next > flog.size() + 1) bad("refused", "an append of " + std::to_string(prev + 1) + ".." + std::to_string(flog.size()) + " was acknowledged up to " + std::to_string(next - 1));
            es.erase(es.begin(), es.begin() + (long)(next - 1 - prev));
            prev = next - 1;
            if (es.empty())
            {
                acked_commit = std::max(acked_commit, std::min<ulong>(fcommit, prev));
                return;
            }
            sched::let_others_run();
        }
    }
    std::map<ulong, std::string> confs;
    ptr<log_entry> at(ulong i)
    {
        auto& s = flog[(size_t)i - 1];
        if (!s.empty()) return entry(lead_term, s);
        return entry(lead_term, confs[i], log_val_type::conf);
    }
    void install(uint32_t a)
    {
        std::lock_guard<std::mutex> g(feed_lock);
        ulong idx = fcommit;
        if (!idx) return;
        if (last_conf > idx) return;
        std::string d = "snapshot " + std::to_string(idx);
        auto s = cs_new<snapshot>(idx, lead_term, conf(last_conf, 0), (ulong)d.size());
        size_t cut = a % 3 ? d.size() : 1 + a % (d.size() - 1);
        for (size_t off = 0; off < d.size(); off = cut, cut = d.size())
        {
            op("snapshot " + std::to_string(idx) + " bytes " + std::to_string(off) + ".." + std::to_string(cut));
            bufptr b = to_buf(d.substr(off, cut - off));
            snapshot_sync_req sr(s, (ulong)off, std::move(b), cut == d.size());
            auto e = cs_new<log_entry>(lead_term, sr.serialize(), log_val_type::snp_sync_req);
            ptr<resp_msg> r = n->ask(lead_term, msg_type::install_snapshot_request, 2, lead_term, idx, fcommit, {e});
            if (!r) bad("none", "a snapshot request got no response");
            if (!r->get_accepted()) return;
            if (r->get_next_idx() >= d.size()) break;
        }
    }
    void run(const act& x)
    {
        switch (x.kind)
        {
            case 0: client(1 + x.a % 3); break;
            case 1: forward(1 + x.a % 2); break;
            case 2:
            {
                std::string s = fresh("r");
                bufptr b = to_buf(s);
                op("replicate_log " + s);
                bool yes = n->srv->replicate_log(b, x.a % 2 ? cs_new<int>(3) : ptr<void>(), x.b);
                op(std::string("replicate_log ") + (yes ? "accepted" : "refused"));
                sched::quiet q;
                (yes ? taken : refused).insert(s);
                break;
            }
            case 3:
                op("is_leader");
                (void)n->srv->is_leader();
                break;
            case 4: timer(x.a); break;
            case 5: respond(x.a, x.b); break;
            case 6: follower ? feed(x.a % 4, x.b % 3, x.b % 4 == 0) : respond(x.a, x.b); break;
            case 7:
            {
                op("vote request of 3");
                bool old = x.b % 2;
                if (!n->ask(lead_term + 1 + x.a % 3, x.b % 5 == 4 ? msg_type::prevote_request : msg_type::vote_request, members >= 3 ? 3 : 2, old ? 0 : 50, old ? 0 : 500, 0)) bad("none", "a vote request got no response");
                break;
            }
            case 8:
                snapshot_done();
                break;
            case 9:
            {
                ptr<async_result<bool>> r;
                if (x.a % 2)
                {
                    op("add_srv");
                    joining = true;
                    srv_config s(20 + (int)(x.b % 3), "s" + std::to_string(20 + x.b % 3));
                    r = n->srv->add_srv(s);
                }
                else
                {
                    op("remove_srv");
                    r = n->srv->remove_srv(members > 2 ? members : 77);
                }
                if (!r) bad("none", "a membership call returned nothing");
                break;
            }
            case 10:
                if (follower)
                    install(x.a);
                else
                    client(1);
                break;
        }
        sched::quiet q;
        ++done_ops;
    }
    void program(const std::vector<act>& p)
    {
        for (auto& x : p)
        {
            try
            {
                run(x);
            }
            catch (std::exception& e)
            {
                bad("threw", std::string("an exception came out of a call: ") + e.what());
            }
        }
    }
    void check()
    {
        auto& got = n->sm->commits;
        mlog& log = *n->mgr->log;
        std::map<ulong, std::string> g;
        for (size_t i = 0; i < got.size(); ++i)
        {
            if (i && got[i].first <= got[i - 1].first) bad("order", "index " + std::to_string(got[i].first) + " was applied after " + std::to_string(got[i - 1].first));
            g[got[i].first] = got[i].second;
            if (got[i].first >= log.start && got[i].first < log.start + log.v.size())
            {
                auto e = log.v[(size_t)(got[i].first - log.start)];
                if (e->get_val_type() != log_val_type::app_log || of_buf(e->get_buf()) != got[i].second) bad("bytes", "index " + std::to_string(got[i].first) + " was applied as '" + got[i].second + "', the log has '" + of_buf(e->get_buf()) + "'");
            }
        }
        // entries of its own carry a term this server led, in order
        std::map<ulong, int> vote;
        for (auto& s : n->mgr->states) vote[s.first] = s.second;
        ulong term = 0;
        std::map<ulong, std::string> all = g;
        for (size_t i = 0; i < log.v.size(); ++i)
        {
            auto& e = log.v[i];
            std::string s = of_buf(e->get_buf());
            std::string where = "entry " + std::to_string(log.start + i) + " of term " + std::to_string(e->get_term());
            if (e->get_term() < term) bad("terms", where + " follows one of term " + std::to_string(term));
            term = e->get_term();
            if (e->get_val_type() != log_val_type::app_log) continue;
            all[log.start + i] = s;
            if (!follower && vote.count(term) && vote[term] != 1) bad("foreign-term", where + " was written by this server, which voted for " + std::to_string(vote[term]) + " in that term");
        }
        if (!n->mgr->states.empty() && term > n->mgr->states.back().first) bad("terms", "the log has an entry of term " + std::to_string(term) + ", the saved term is " + std::to_string(n->mgr->states.back().first));
        std::map<std::string, int> times;
        for (auto& a : all) ++times[a.second];
        for (auto& s : refused)
            if (times.count(s)) bad("refused-kept", "command " + s + " was refused but is in the log");
        if (!follower)
            for (auto& s : taken)
                if (times[s] != 1) bad("taken-lost", "command " + s + " was accepted and is " + std::to_string(times[s]) + " times in the log");
        for (auto& m : n->out->q)
            if (m.req->get_src() == 1 && m.req->get_type() != msg_type::client_request && m.req->get_commit_idx() > announced) announced = m.req->get_commit_idx();
        ulong commit = std::max(announced, acked_commit);
        if (members == 1 && !joining) commit = log.start + log.v.size() - 1;
        ulong installed = n->sm->installed;
        for (ulong i = std::max(log.start, installed + 1); i <= commit && i < log.start + log.v.size(); ++i)
        {
            auto e = log.v[(size_t)(i - log.start)];
            if (e->get_val_type() == log_val_type::app_log && !g.count(i)) bad("stalled", "index " + std::to_string(i) + " is committed (up to " + std::to_string(commit) + ") but not applied although everything is idle");
        }
    }
};

void run_crowd(Case& c)
{
    crowd r(c);
    sched::on_stuck = [&](const char* w) { r.bad("hang", std::string("no thread can go on: ") + w); };
    sched::options o;
    o.spurious = true;
    o.max_preempt = 2;
    o.max_steps = 4000000;
    sched::begin(c, o);
    r.boot();
    uint32_t nt = c.range(2, 4);
    // half of the cases: each thread does one kind of thing
    std::vector<int> only(nt, -1);
    if (c.chance(1, 2))
        for (auto& x : only) x = (int)c.pick({2, 3, 2, 2, 3, 3, 3, 2, 3, 2, 2});
    std::vector<std::vector<act>> progs(nt);
    for (size_t t = 0; t < nt; ++t)
    {
        auto& p = progs[t];
        uint32_t k = c.range(1, 5);
        while (k--)
        {
            c.span_begin();
            uint32_t kind = only[t] >= 0 ? (uint32_t)only[t] : c.pick({3, 3, 2, 1, 4, 6, 5, 1, 3, 1, 2});
            uint32_t a = c.draw(64), b = c.draw(12);
            p.push_back({kind, a, b});
            c.span_end();
        }
    }
    sched::rearm(8);
    std::vector<std::thread> ts;
    for (auto& p : progs) ts.emplace_back([&r, &p] { r.program(p); });
    for (auto& t : ts) t.join();
    sched::let_others_run();
    // whatever happened, the server still answers
    r.op("last request");
    if (!r.n->ask(1, msg_type::vote_request, 2, 0, 0, 0)) r.bad("none", "a vote request got no response");
    sched::let_others_run();
    r.check();
    uint64_t sw = sched::switches();
    c.label("switches", sw);
    c.label("applied", r.n->sm->commits.size());
    c.label("threads", nt);
    c.label("follower", r.follower);
    c.label("snapshots installed", (uint64_t)r.n->sm->applied_snapshots);
    c.label("calls", r.done_ops);
    c.sample(r.hist + sched::trace());
    if (sw >= 6 && r.done_ops >= 4) c.nontrivial();
    // the process ends here: batch size is 1
}
// C27: one thread uses the server, then it is destroyed whatever it was doing: requests outstanding, retries, log sync and
// snapshots under way
void destroy_crowd(Case& c)
{
    crowd r(c);
    sched::on_stuck = [&](const char* w) { r.bad("hang", std::string("the server is never destroyed: ") + w); };
    sched::options o;
    o.spurious = true;
    o.max_steps = 4000000;
    sched::begin(c, o);
    r.boot();
    bool over = false;
    r.n->mgr->on_exit = [&c] { c.discard(); };
    auto work = r.n->sm->on_commit;
    r.n->sm->on_commit = [&r, &over, work](ulong i) {
        if (over) r.bad("late", "the state machine was called (commit " + std::to_string(i) + ") after the server was destroyed");
        work(i);
    };
    uint32_t k = c.draw(14);
    while (k--)
    {
        c.span_begin();
        act x;
        x.kind = c.pick({3, 1, 2, 0, 4, 9, 4, 1, 2, 4, 1});
        x.a = c.draw(64);
        x.b = x.kind == 5 ? c.one_of<uint32_t>({0, 0, 0, 9, 9, 10, 11}) : c.draw(12);
        r.run(x);
        if (c.chance(1, 4)) sched::let_others_run();
        c.span_end();
    }
    r.op("destroy");
    r.n->srv.reset();
    over = true;
    size_t applied = r.n->sm->commits.size();
    size_t timers = r.n->timers->pending();
    if (timers) r.bad("timer", std::to_string(timers) + " timers of the destroyed server are pending");
    sched::let_others_run(); // whatever is still running must not touch the server (AddressSanitizer)
    if (r.n->sm->commits.size() != applied) r.bad("late", "commands were applied after the server was destroyed");
    if (sched::live()) r.bad("thread", std::to_string(sched::live()) + " threads of the destroyed server are still running");
    uint64_t sw = sched::switches();
    sched::end();
    c.label("switches", sw);
    c.label("applied", applied);
    c.label("members", (uint64_t)r.members);
    c.label("joining", r.joining);
    c.sample(r.hist + sched::trace());
    if (sw >= 2) c.nontrivial();
}
} // namespace

void destroy_in_use(Case& c)
{
    destroy_crowd(c);
}

void reg_threads()
{
    reg_prop("C33", "one real server (leading 1-4 servers or following) used by 2-4 threads with random programs of client calls, forwarded calls, messages of a leader (entries, configurations, snapshots), votes, responses, losses, timer firings, membership calls and snapshot completions under generated schedules with pre-emption at locks, loads, stores and branches; no crash, exception, exit or deadlock, commands applied in order and completely once idle; non-trivial: at least 6 context switches and 4 calls", run_crowd, 16000, 400000, 1);
}
