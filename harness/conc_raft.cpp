// One real raft_server under generated thread schedules: destruction (C27), lost wake-ups and concurrent callers
// (parts of C05, C09, C28).
#include "conc.hpp"
#include "mini.hpp"
#include "sched.hpp"
#include <thread>

using namespace cornerstone;
using namespace mini;
using pbt::Case;

namespace
{
struct rig
{
    Case& c;
    const char* prop;
    std::unique_ptr<node> n;
    std::string hist;
    bool destroyed = false;
    ulong term = 0;      // of the leader the harness plays
    int members;
    std::vector<std::pair<ulong, std::string>> flog; // the log of the leader the harness plays (index i+1)
    ulong fcommit = 0, last_conf = 0;
    int serial = 0;
    std::map<std::string, int> accepted; // client commands answered with success
    std::set<std::string> rejected;
    std::vector<std::vector<std::string>> per_client;

    rig(Case& cc, const char* p) : c(cc), prop(p), members(1) {}
    void op(const std::string& s)
    {
        sched::quiet q;
        hist += s + "; ";
        if (pbt::verbose()) fprintf(stderr, "[%d] %s\n", sched::self(), s.c_str());
    }
    [[noreturn]] void bad(const char* key, const std::string& m)
    {
        c.fail(key, "%s\n%s\nswitches: %s", m.c_str(), hist.c_str(), sched::trace().c_str());
        abort();
    }
    void boot(int m)
    {
        members = m;
        std::vector<int> ids;
        for (int i = 1; i <= m; ++i) ids.push_back(i);
        n.reset(new node(1, ids));
        int dist = c.chance(1, 4) ? (int)c.range(1, 4) : 0;
        int work = (int)c.draw(4);
        n->tune = [dist](raft_params& p) { p.with_snapshot_enabled(dist).with_reserved_log_items(0); };
        n->sm->on_commit = [this, work](ulong i) {
            if (destroyed) bad("late", "the state machine was called (commit " + std::to_string(i) + ") after the server was destroyed");
            for (int k = 0; k < work * 8; ++k) sched::point();
        };
        n->mgr->on_exit = [this] { bad("exit", "the server asked to stop the process"); };
        op("cluster of " + std::to_string(m) + (dist ? " with snapshots" : ""));
        n->start();
    }
    // a cluster of one: it leads itself
    void lead_alone()
    {
        op("election timer");
        n->election();
    }
    ptr<resp_msg> client(int k, const std::string& who)
    {
        req_msg r(0, msg_type::client_request, 0, 1, 0, 0, 0);
        std::vector<std::string> t;
        {
            sched::quiet q;
            for (int i = 0; i < k; ++i)
            {
                t.push_back(who + std::to_string(++serial));
                r.log_entries().push_back(entry(0, t.back()));
            }
        }
        op("client " + who + " sends " + std::to_string(k));
        ptr<resp_msg> resp = n->srv->process_req(r);
        sched::quiet q;
        note(who, t, resp && resp->get_accepted());
        return resp;
    }
    void replicate(const std::string& who)
    {
        std::string t;
        {
            sched::quiet q;
            t = who + std::to_string(++serial);
        }
        op("client " + who + " replicates");
        bufptr b = to_buf(t);
        bool ok = n->srv->replicate_log(b, ptr<void>(), 0);
        sched::quiet q;
        note(who, {t}, ok);
    }
    void note(const std::string& who, const std::vector<std::string>& t, bool ok)
    {
        size_t w = (size_t)(who[0] - 'a');
        if (per_client.size() <= w) per_client.resize(w + 1);
        for (auto& x : t)
            if (ok)
            {
                accepted[x] = 1;
                per_client[w].push_back(x);
            }
            else
                rejected.insert(x);
    }
    // the harness as leader of a follower
    void feed(int k, ulong commit_gap, bool with_conf)
    {
        if (!term) term = 5;
        std::vector<ptr<log_entry>> es;
        ulong prev, pt;
        {
            sched::quiet q;
            prev = flog.size();
            pt = prev ? term : 0;
            for (int i = 0; i < k; ++i)
            {
                bool conf = with_conf && i == 0;
                if (conf)
                {
                    // (a leader writes a configuration only when the one before is committed)
                    if (last_conf > fcommit) fcommit = last_conf;
                    last_conf = prev + 1;
                    cluster_config cc(prev + 1, 0);
                    for (int m = 1; m <= members; ++m) cc.get_servers().push_back(cs_new<srv_config>(m, "s" + std::to_string(m)));
                    bufptr b = cc.serialize();
                    flog.emplace_back(term, "");
                    es.push_back(cs_new<log_entry>(term, std::move(b), log_val_type::conf));
                }
                else
                {
                    flog.emplace_back(term, "f" + std::to_string(++serial));
                    es.push_back(entry(term, flog.back().second));
                }
            }
            ulong last = flog.size();
            ulong ci = last > commit_gap ? last - commit_gap : 0;
            if (ci > fcommit) fcommit = ci;
        }
        op("append " + std::to_string(k) + (with_conf ? " with a configuration" : "") + ", commit " + std::to_string(fcommit));
        ulong last = prev + es.size();
        for (int tries = 0;; ++tries)
        {
            ptr<resp_msg> r = n->ask(term, msg_type::append_entries_request, 2, pt, prev, fcommit, es);
            if (!r || !r->get_accepted())
            {
                bad("refused", "an append that continues the log was refused");
                break;
            }
            // the follower may take a part only, the leader sends the rest again
            ulong next = r->get_next_idx();
            if (next <= prev || next > last + 1)
            {
                bad("refused", "an append of " + std::to_string(prev + 1) + ".." + std::to_string(last) + " was acknowledged up to " + std::to_string(next - 1));
                break;
            }
            if (next == last + 1) break;
            if (tries > 50)
            {
                bad("refused", "an append that continues the log is never taken completely");
                break;
            }
            es.erase(es.begin(), es.begin() + (long)(next - 1 - prev));
            prev = next - 1;
            pt = prev ? term : 0;
            settle();
        }
    }
    void settle()
    {
        sched::let_others_run();
    }
    void check_applied()
    {
        // expected: every committed client command, in log order
        std::vector<std::pair<ulong, std::string>> want;
        ulong commit = members == 1 ? n->mgr->log->next_slot() - 1 : fcommit;
        if (members == 1)
        {
            for (ulong i = n->mgr->log->start_index(); i <= commit; ++i)
            {
                auto e = n->mgr->log->entry_at(i);
                if (e->get_val_type() == log_val_type::app_log) want.emplace_back(i, of_buf(e->get_buf()));
            }
        }
        else
            for (ulong i = 1; i <= commit; ++i)
                if (!flog[(size_t)i - 1].second.empty()) want.emplace_back(i, flog[(size_t)i - 1].second);
        auto& got = n->sm->commits;
        for (size_t i = 1; i < got.size(); ++i)
            if (got[i].first <= got[i - 1].first) bad("order", "index " + std::to_string(got[i].first) + " was applied after " + std::to_string(got[i - 1].first));
        std::map<ulong, std::string> g(got.begin(), got.end());
        for (auto& w : want)
        {
            auto it = g.find(w.first);
            if (it == g.end()) bad("stalled", "index " + std::to_string(w.first) + " is committed (up to " + std::to_string(commit) + ") but not applied although everything is idle");
            if (it->second != w.second) bad("bytes", "index " + std::to_string(w.first) + " was applied as '" + it->second + "' instead of '" + w.second + "'");
        }
        if (members != 1)
            for (auto& x : got)
                if (x.first > commit) bad("early", "index " + std::to_string(x.first) + " was applied before it was committed");
    }
};

void scenario(rig& r, bool concurrent)
{
    Case& c = r.c;
    int members = c.chance(1, 2) ? 1 : (int)c.range(2, 3);
    r.boot(members);
    if (members == 1 && (concurrent || c.chance(4, 5))) r.lead_alone();
    uint32_t k = c.draw(7);
    while (k--)
    {
        c.span_begin();
        switch (c.pick({5, 1, 2}))
        {
            case 0:
                if (members == 1)
                    c.chance(1, 3) ? r.replicate("m") : (void)r.client((int)c.range(1, 3), "m");
                else
                    r.feed((int)c.draw(4), c.draw(3), c.chance(1, 4));
                break;
            case 1:
                r.op("settle");
                r.settle();
                break;
            default:
            {
                uint32_t steps = c.draw(60);
                while (steps--) sched::point();
            }
        }
        c.span_end();
    }
    if (members != 1 && c.chance(1, 3) && !concurrent)
    {
        r.op("election timer");
        r.n->election();
    }
}

// C27
void run_destroy(Case& c)
{
    if (c.chance(1, 3)) return destroy_in_use(c);
    rig r(c, "C27");
    sched::on_stuck = [&](const char* w) { r.bad("hang", std::string("the server is never destroyed: ") + w); };
    sched::options o;
    o.spurious = true;
    o.max_steps = 3000000;
    sched::begin(c, o);
    scenario(r, false);
    size_t applied_before = r.n->sm->commits.size();
    r.op("destroy");
    r.n->srv.reset();
    r.destroyed = true;
    size_t applied = r.n->sm->commits.size();
    if (r.n->timers->pending()) r.bad("timer", std::to_string(r.n->timers->pending()) + " timers of the destroyed server are pending");
    r.settle(); // whatever is still running must not touch the server (AddressSanitizer)
    if (r.n->sm->commits.size() != applied) r.bad("late", "commands were applied after the server was destroyed");
    if (sched::live()) r.bad("thread", std::to_string(sched::live()) + " threads of the destroyed server are still running");
    uint64_t sw = sched::switches();
    sched::end();
    c.label("switches", sw);
    c.label("applied", applied);
    c.label("destroyed with commits pending", applied != applied_before);
    c.sample(r.hist + sched::trace());
    if (sw >= 2) c.nontrivial();
}

// nothing committed stays unapplied; concurrent callers
void run_callers(Case& c, const char* prop)
{
    rig r(c, prop);
    bool mute_hang = std::string(prop) != "C09";
    sched::on_stuck = [&](const char* w) {
        if (mute_hang)
        {
            c.label("stuck");
            c.discard();
        }
        r.bad("hang", std::string("no thread can go on: ") + w);
    };
    sched::options o;
    o.max_steps = 3000000;
    sched::begin(c, o);
    scenario(r, true);
    uint32_t nt = 0;
    std::vector<std::thread> ts;
    nt = 1 + c.draw(3);
    for (uint32_t i = 0; i < nt; ++i)
    {
        std::vector<uint32_t> prog;
        uint32_t k = c.range(1, 3);
        while (k--) prog.push_back(r.members == 1 ? c.draw(5) : 3 + c.draw(2));
        bool first = i == 0;
        ts.emplace_back([&r, prog, i, first] {
            std::string who(1, (char)('a' + i));
            for (uint32_t x : prog)
                if (r.members == 1)
                    x == 0 ? r.replicate(who) : (void)r.client((int)x % 3 + 1, who);
                else if (first) // one leader feeds a follower, the others only ask
                    r.feed((int)(x - 2), 0, false);
                else if (x == 3)
                    (void)r.n->srv->is_leader();
                else
                    (void)r.client(1, who);
        });
    }
    for (auto& t : ts) t.join();
    r.settle();
    if (std::string(prop) == "C28")
    {
        // accepted: in the log, once, a client's own in order; rejected: nowhere
        std::vector<std::string> log;
        std::map<std::string, int> cnt;
        for (auto& e : r.n->mgr->log->v)
            if (e->get_val_type() == log_val_type::app_log)
            {
                log.push_back(of_buf(e->get_buf()));
                ++cnt[log.back()];
            }
        bool compacted = r.n->mgr->log->start > 1;
        for (auto& a : r.accepted)
            if (cnt[a.first] > 1 || (cnt[a.first] == 0 && !compacted)) r.bad("accepted", "command '" + a.first + "' was accepted and is " + std::to_string(cnt[a.first]) + " times in the log");
        for (auto& a : r.rejected)
            if (cnt[a]) r.bad("rejected", "command '" + a + "' was rejected and is in the log");
        for (auto& pc : r.per_client)
        {
            size_t pos = 0;
            for (auto& x : pc)
            {
                size_t p = (size_t)(std::find(log.begin(), log.end(), x) - log.begin());
                if (p == log.size()) continue;
                if (p < pos) r.bad("order", "command '" + x + "' is in the log before an earlier one of the same client");
                pos = p;
            }
        }
        if (r.members == 1)
            for (auto& e : r.n->mgr->log->v)
                if (e->get_val_type() == log_val_type::app_log && e->get_term() == 0) r.bad("term", "a command is in the log without a term");
    }
    else
        r.check_applied();
    uint64_t sw = sched::switches();
    c.label("switches", sw);
    c.label("applied", r.n->sm->commits.size());
    c.label("callers", nt);
    c.sample(r.hist + sched::trace());
    if (sw >= 4 && r.n->sm->commits.size() >= 1) c.nontrivial();
    // the process ends here: batch size is 1
}
} // namespace

void reg_raft()
{
    reg_prop("C27", "one real server (alone, leading or not, a leader of scripted peers with membership changes, retries and snapshots under way, or a follower fed by the harness) that is destroyed at a random moment of random commands, commits, configurations and snapshots, under generated schedules of its apply thread with pre-emption at locks, loads, stores and branches and spurious wake-ups; non-trivial: at least 2 context switches", run_destroy, 8000, 300000, 1);
    reg_prop("C09", "conc: one real server with 1-3 concurrent callers under generated schedules of callers and apply thread; when everything is idle each committed command must be applied; non-trivial: at least 4 context switches and 1 command applied", [](Case& c) { run_callers(c, "C09"); }, 6000, 200000, 1);
    reg_prop("C28", "conc: one real server with 1-3 concurrent callers under generated schedules; verdicts compared with the log; non-trivial: at least 4 context switches and 1 command applied", [](Case& c) { run_callers(c, "C28"); }, 6000, 200000, 1);
}
