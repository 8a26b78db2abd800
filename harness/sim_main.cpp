// Cluster histories: generators and property registration.
#include "sim.hpp"
#include <algorithm>

using namespace sim;

namespace
{
struct profile
{
    const char* prop;
    // weights of operations
    uint32_t w_run = 10, w_burst = 8, w_crash = 2, w_crashop = 2, w_restart = 4, w_isol_leader = 3, w_isol = 2, w_oneway = 2,
             w_heal = 3, w_mode = 3, w_fire = 2, w_release = 2, w_freeze = 1, w_lease = 1, w_epoch = 5, w_restart_all = 1,
             w_follower_lag = 2, w_contest = 0;
    uint32_t snap = 40;    // percent of cases with snapshots
    uint32_t prevote = 25; // percent
    uint32_t fs = 0;       // percent of cases with logs in files
    uint32_t volat = 25;   // percent of cases whose state machines lose everything since the last snapshot on a restart
    uint32_t fine = 30;
    uint32_t nmin = 1, nmax = 5;
    uint32_t mean_ops = 14;
    bool timing_only = false; // no forced timers
    bool converge = true;
    uint32_t w_add = 0, w_rm = 0, w_bad = 0;
    uint32_t repl = 2, copies = 33; // weight of replicate_log, percent of cases whose log returns copies
    uint32_t member = 0; // percent of cases with membership changes
};

const char* pick_mode(world& w, pbt::Case& c)
{
    mode m;
    switch (c.pick({4, 3, 2, 2, 2, 1}))
    {
        case 0: w.net() = m; return "calm";
        case 1:
            m.drop = 15;
            m.rdrop = 15;
            w.net() = m;
            return "lossy";
        case 2:
            m.dup = 30;
            m.dmax = 8000;
            w.net() = m;
            return "duplicating";
        case 3:
            m.dmin = 500;
            m.dmax = 60000;
            w.net() = m;
            return "slow and reordering";
        case 4:
            m.hold = 12;
            w.net() = m;
            return "holding";
        default:
            m.drop = 25;
            m.rdrop = 25;
            m.dup = 25;
            m.dmin = 500;
            m.dmax = 40000;
            m.hold = 5;
            w.net() = m;
            return "harsh";
    }
}

int any_server(world& w, pbt::Case& c)
{
    if (!w.membership_) return 1 + (int)c.draw((uint32_t)w.p_.n);
    std::vector<int> v = w.pool();
    return v[c.draw((uint32_t)v.size())];
}
std::vector<int> everyone(world& w)
{
    if (w.membership_) return w.pool();
    std::vector<int> v;
    for (int i = 1; i <= w.p_.n; ++i) v.push_back(i);
    return v;
}

std::string set_text(const std::set<int>& s)
{
    std::string t = "{";
    for (int i : s) t += (t.size() > 1 ? "," : "") + std::to_string(i);
    return t + "}";
}

void burst(world& w, pbt::Case& c, const profile& f, int at)
{
    int k = (int)c.range(1, 4);
    int size = c.one_of<int>({1, 1, 20, 90});
    uint32_t kind = c.pick({6, 1, f.repl});
    if (!at)
    {
        at = w.leader_guess();
        if (!at || c.chance(1, 6)) at = any_server(w, c);
    }
    if (kind == 0)
    {
        w.op("client request of %d commands to S%d", k, at);
        w.client_batch(at, k, size);
    }
    else if (kind == 1)
    {
        w.op("append_entries of %d commands on S%d", k, at);
        w.client_append(at, k, size);
    }
    else
    {
        w.op("replicate_log on S%d", at);
        for (int j = 0; j < k; ++j) w.client_replicate(at, size);
    }
}

vtime small_dt(pbt::Case& c)
{
    static const vtime t[] = {3000, 6000, 1000, 12000, 30000, 90000};
    return t[c.draw(6)];
}
vtime any_dt(pbt::Case& c)
{
    static const vtime t[] = {10000, 40000, 120000, 400000, 4000, 1000000, 2000000};
    return t[c.draw(7)];
}

void one_op(world& w, pbt::Case& c, const profile& f)
{
    uint32_t fire = f.timing_only ? 0 : f.w_fire, epoch = f.timing_only ? 0 : f.w_epoch;
    switch (c.pick({f.w_run, f.w_burst, f.w_crash, f.w_crashop, f.w_restart, f.w_isol_leader, f.w_isol, f.w_oneway, f.w_heal, f.w_mode, fire, f.w_release, f.w_freeze, f.w_lease, epoch, f.w_restart_all, f.w_follower_lag, f.w_add, f.w_rm, f.w_bad, w.p_.n >= 4 && !w.membership_ ? f.w_contest : 0}))
    {
        case 0:
        {
            vtime dt = any_dt(c);
            w.op("run %.0f ms", (double)dt / 1000.0);
            w.run_for(dt);
            break;
        }
        case 1:
            burst(w, c, f, 0);
            if (c.chance(1, 2)) w.run_for(small_dt(c));
            break;
        case 2:
        {
            int x = any_server(w, c);
            if (c.chance(1, 2) && w.leader_guess()) x = w.leader_guess();
            w.op("crash S%d", x);
            w.crash(x);
            break;
        }
        case 3:
        {
            int x = any_server(w, c), k = (int)c.range(1, 8);
            bool before = c.chance(1, 2);
            if (inc* i = w.up(x))
            {
                i->crash_in = k;
                i->crash_before = before;
                w.op("S%d will crash %s its storage operation %d", x, before ? "before" : "after", k);
            }
            break;
        }
        case 4:
        {
            int x = any_server(w, c);
            if (w.up(x))
                for (int i : everyone(w))
                    if (!w.up(i)) x = i;
            w.op("start S%d", x);
            w.start(x);
            break;
        }
        case 5:
        {
            int l = w.leader_guess();
            if (!l) l = any_server(w, c);
            std::set<int> g{l};
            uint32_t k = c.draw((uint32_t)(w.p_.n + 1) / 2);
            while (k--) g.insert(any_server(w, c));
            w.op("separate %s", set_text(g).c_str());
            w.isolate(g);
            break;
        }
        case 6:
        {
            std::set<int> g;
            for (int i : everyone(w))
                if (c.chance(1, 2)) g.insert(i);
            w.op("separate %s", set_text(g).c_str());
            w.isolate(g);
            break;
        }
        case 7:
        {
            int a = any_server(w, c), b = any_server(w, c);
            bool hold = c.chance(1, 2);
            if (a != b)
            {
                w.op("%s S%d->S%d", hold ? "hold" : "cut", a, b);
                w.set_link(a, b, hold ? l_hold : l_cut);
            }
            break;
        }
        case 8:
            w.op("heal links");
            w.heal_links();
            if (c.chance(1, 2)) w.release_held(0, true);
            break;
        case 9:
        {
            const char* m = pick_mode(w, c);
            w.op("network %s", m);
            break;
        }
        case 10:
        {
            int x = any_server(w, c);
            w.op("election timer of S%d fires", x);
            w.fire_election(x);
            break;
        }
        case 11:
        {
            uint32_t k = c.draw(16);
            w.op("deliver held message %u", k);
            w.release_held(k, false);
            w.run_for(1);
            break;
        }
        case 12:
        {
            int x = any_server(w, c);
            if (inc* i = w.up(x))
            {
                i->frozen = !i->frozen;
                w.op("apply thread of S%d %s", x, i->frozen ? "stalls" : "goes on");
            }
            break;
        }
        case 13:
            if (c.chance(1, 2))
            {
                // the leader loses its quorum, and is asked around the time its lease ends
                int l = w.leader_guess();
                if (!l) l = any_server(w, c);
                std::set<int> g{l};
                uint32_t k = c.draw((uint32_t)(w.p_.n + 1) / 2);
                while (k--) g.insert(any_server(w, c));
                w.isolate(g);
                static const int pc[] = {210, 190, 250, 120, 205, 400};
                vtime dt = (vtime)w.p_.el_hi * 10 * pc[c.draw(6)];
                w.op("separate %s for %.0f ms", set_text(g).c_str(), (double)dt / 1000.0);
                w.run_for(dt);
            }
            if (c.chance(1, 4))
            {
                static const vtime days[] = {1, 30, 5, 60, 0};
                vtime dt = days[c.draw(5)] * 86400ll * 1000000ll + (vtime)c.draw(4000000);
                w.op("everything stands still for %.3f s", (double)dt / 1e6);
                w.stand_still(dt);
            }
            w.op("ask everyone whether it leads");
            w.check_lease_all();
            if (c.chance(1, 2)) burst(w, c, f, 0);
            break;
        case 14:
        {
            int x = any_server(w, c);
            std::set<int> g{x};
            for (int i : everyone(w))
                if (c.chance(1, 2)) g.insert(i);
            bool enough = c.chance(3, 4); // a quorum takes part
            if (enough)
            {
                std::vector<int> v = everyone(w);
                for (size_t k = 0, o = c.draw((uint32_t)v.size()); k < v.size() && g.size() <= v.size() / 2; ++k) g.insert(v[(o + k) % v.size()]);
            }
            w.start(x);
            for (int i : g)
                if (enough || c.chance(1, 2)) w.start(i);
            w.isolate(g);
            w.op("S%d campaigns reaching %s", x, set_text(g).c_str());
            w.fire_election(x);
            w.run_for(small_dt(c));
            if (c.chance(1, 2))
            {
                std::set<int> h{x};
                for (int i : g)
                    if (c.chance(1, 4)) h.insert(i);
                w.op("then only %s", set_text(h).c_str());
                w.isolate(h);
            }
            if (c.chance(3, 4)) burst(w, c, f, x);
            w.run_for(small_dt(c));
            uint32_t k = c.draw(4);
            if (k == 1)
            {
                w.op("crash S%d", x);
                w.crash(x);
            }
            break;
        }
        case 15:
            w.op("start everyone");
            for (int i : everyone(w)) w.start(i);
            break;
        case 16:
        {
            // a follower falls behind while the rest goes on
            int l = w.leader_guess();
            int x = any_server(w, c);
            if (x == l && !w.membership_) x = x % w.p_.n + 1;
            std::set<int> rest;
            for (int i : everyone(w))
                if (i != x) rest.insert(i);
            w.op("S%d falls behind", x);
            bool down = c.chance(1, 3);
            if (down) w.crash(x);
            w.isolate(rest);
            uint32_t k = c.range(1, 4);
            while (k--)
            {
                burst(w, c, f, 0);
                w.run_for(small_dt(c));
            }
            if (c.chance(2, 3))
            {
                w.op("S%d is back", x);
                w.heal_links();
                w.start(x);
                w.run_for(any_dt(c));
            }
            break;
        }
        case 17:
        {
            int at = w.leader_guess();
            if (!at || c.chance(1, 8)) at = any_server(w, c);
            int x = w.fresh_id();
            uint32_t kind = c.pick({8, 1, 1});
            bool copy = c.chance(1, 2);
            if (kind == 1) x = any_server(w, c);
            if (kind == 2) x = at;
            if (!x) break;
            // (a server that was removed comes back with empty storage and another id)
            if (kind == 1 && w.was_member(x) && !w.agreed().count(x)) break;
            if (kind == 0) w.provision(x, copy);
            w.op("add S%d at S%d", x, at);
            if (c.chance(1, 4))
                w.member_api(any_server(w, c), true, x);
            else
                w.member_req(at, true, x);
            if (c.chance(2, 3)) w.run_for(small_dt(c));
            break;
        }
        case 18:
        {
            int at = w.leader_guess();
            if (!at || c.chance(1, 8)) at = any_server(w, c);
            int x = any_server(w, c);
            if (c.chance(1, 10)) x = 77;
            w.op("remove S%d at S%d", x, at);
            if (c.chance(1, 4))
                w.member_api(any_server(w, c), false, x);
            else
                w.member_req(at, false, x);
            if (c.chance(2, 3)) w.run_for(small_dt(c));
            break;
        }
        case 19:
        {
            int at = c.chance(1, 2) ? w.leader_guess() : any_server(w, c);
            int k = (int)c.draw(6);
            w.op("malformed membership request %d at S%d", k, at);
            w.bad_member_req(at, k);
            break;
        }
        case 20:
        {
            // a leader of short reach is deposed, its entries are overwritten, and it comes back as a leader
            int n = w.p_.n, o = (int)c.draw((uint32_t)n);
            auto s = [&](int k) { return (o + k) % n + 1; };
            int a = s(0), b = s(1), d = s(2);
            for (int i : everyone(w)) w.start(i);
            auto lead = [&](int x, int without)
            {
                std::set<int> g;
                for (int i : everyone(w))
                    if (i != without) g.insert(i);
                w.isolate(g);
                w.op("S%d campaigns without S%d", x, without);
                for (int t = 0; t < 3; ++t)
                {
                    w.fire_election(x);
                    w.run_for(12000);
                    if (w.leader_guess() == x) break;
                }
            };
            lead(a, c.chance(1, 2) ? d : 0);
            std::set<int> two{a, b};
            w.op("then only %s", set_text(two).c_str());
            w.isolate(two);
            uint32_t k = c.range(2, 4);
            while (k--)
            {
                burst(w, c, f, a);
                w.run_for(small_dt(c));
            }
            lead(d, b);
            if (c.chance(3, 4)) burst(w, c, f, d);
            w.run_for(small_dt(c));
            lead(a, b);
            if (c.chance(1, 2)) burst(w, c, f, a);
            w.run_for(small_dt(c));
            std::set<int> h{a, s(2 + (int)c.draw((uint32_t)n - 2))};
            w.op("then only %s", set_text(h).c_str());
            w.isolate(h);
            k = c.range(1, 3);
            while (k--)
            {
                burst(w, c, f, a);
                w.run_for(small_dt(c));
            }
            break;
        }
    }
}

params draw_params(pbt::Case& c, const profile& f)
{
    params p;
    // 3 is simplest
    static const int ns[] = {3, 3, 3, 5, 4, 2, 1, 3, 5};
    do p.n = ns[c.draw(9)];
    while (p.n < (int)f.nmin || p.n > (int)f.nmax);
    p.max_append = c.one_of<int>({100, 1, 2, 3});
    if (c.chance(f.snap, 100))
    {
        p.snap_dist = c.one_of<int>({3, 5, 10, 2});
        p.reserved = c.one_of<int>({0, 1, 3, 7});
        p.block = c.one_of<int>({0, 1000, 17, 64});
        p.snap_mode = (int)c.pick({4, 2, 2});
        p.pad = c.one_of<int>({0, 0, 100});
        p.sm_durable = !c.chance(f.volat, 100);
    }
    p.prevote = c.chance(f.prevote, 100);
    p.defensive = !c.chance(1, 3);
    p.log_copies = c.chance(f.copies, 100);
    switch (c.pick({6, 1, 1, 1}))
    {
        case 1: p.el_lo = 150; p.el_hi = 300; p.hb = 75; p.backoff = 50; break; // defaults
        case 2: p.el_lo = 300; p.el_hi = 900; p.hb = 60; p.backoff = 40; break;
        case 3: p.el_lo = 200; p.el_hi = 500; p.hb = 100; p.backoff = 7; break;
    }
    if (c.chance(f.fs, 100)) p.fs = c.one_of<int>({-1, 1, 2, 5, 20});
    p.fine = c.chance(f.fine, 100);
    p.sm_reads = c.chance(1, 2);
    if (f.w_add)
    {
        p.spare = 8;
        p.sync_batch = c.one_of<int>({1000, 1, 3, 7});
        p.sync_gap = c.one_of<int>({10, 1, 2, 4});
    }
    return p;
}

void finish(world& w, pbt::Case& c)
{
    c.label("terms with leader", w.leader_of_.size());
    c.label("applies", w.n_commits);
    c.label("log overwrites", w.n_overwrites);
    c.label("rollbacks", w.n_rollbacks);
    c.label("snapshots created", w.n_snap_created);
    c.label("snapshots installed", w.n_snap_installed);
    c.label("snapshot pieces", w.n_snap_blocks);
    c.label("compactions", w.n_compacts);
    c.label("crashes", w.n_crashes + w.n_crash_op);
    c.label("crashes at storage ops", w.n_crash_op);
    c.label("restarts", w.n_restarts);
    c.label("messages", w.n_msgs);
    c.label("duplicates", w.n_dups);
    c.label("lost messages", w.n_drops);
    c.label("votes granted", w.n_votes);
    c.label("prevote requests", w.n_pv_req);
    c.label("lease valid checks", w.n_lease_true);
    c.label("lease expired checks", w.n_lease_false);
    c.label("client accepted", w.n_accepted);
    c.label("client rejected", w.n_rejected);
    c.label("cookies seen", w.n_cookies);
    c.label("catch-up events", w.n_catch_up);
    c.label("timers set", w.n_timers);
    c.label("rejoins", w.n_rejoin);
    c.label("requests of full size", w.n_full);
    if (w.membership_)
    {
        c.label("add accepted", w.n_adds);
        c.label("remove accepted", w.n_rms);
        c.label("membership refused", w.n_refused);
        c.label("servers left", w.n_left);
        c.label("configurations committed", w.confs_.size());
    }
}

void with_members(profile& f)
{
    f.w_add = 14;
    f.w_rm = 10;
    f.w_bad = 1;
    f.w_crash = 1;
    f.w_crashop = 1;
    f.w_epoch = 3;
    f.nmin = 1;
}

void history(pbt::Case& c, const profile& f0, world*& out)
{
    profile f = f0;
    if (f.member && c.chance(f.member, 100)) with_members(f);
    params p = draw_params(c, f);
    world& w = *(out = new world(c, f.prop, p));
    w.g_ = pbt::rng(c.seed32());
    w.boot_all();
    if (c.chance(3, 4))
    {
        if (f.timing_only || c.chance(1, 3))
            w.run_for(900000);
        else
        {
            w.run_for(2000);
            w.fire_election(1);
            w.run_for(12000);
            if (p.prevote)
            {
                for (int i = 2; i <= p.n; ++i) w.fire_election(i);
                w.run_for(20000);
            }
        }
    }
    uint32_t max_ops = 60;
    for (uint32_t k = 0; k < max_ops; ++k)
    {
        c.span_begin();
        bool more = c.draw(f.mean_ops) != 0;
        if (more)
        {
            w.g_ = pbt::rng(c.seed32());
            one_op(w, c, f);
        }
        c.span_end();
        if (!more) break;
    }
    c.span_begin();
    w.g_ = pbt::rng(c.seed32());
    if (w.membership_)
        w.healthy_changes();
    else if (f.converge)
        w.converge("end");
    c.span_end();
    finish(w, c);
}

const char* base_rule =
    "random cluster of 1-5 real raft_server objects over a simulated network, clock, storage and apply thread; random "
    "history of client commands, partitions, one-way cuts, message loss, duplication, reordering and holding, crashes "
    "(also at chosen storage operations), restarts, forced elections, stalled apply threads and snapshots; ";

std::vector<std::string> rules;
void reg(const char* id, const profile& f0, const char* nontrivial, std::function<bool(world&)> nt, uint64_t quick)
{
    profile f = f0;
    f.prop = id;
    rules.push_back(std::string(base_rule) + "non-trivial: " + nontrivial);
    pbt::Prop p;
    p.id = id;
    p.rule = strdup(rules.back().c_str());
    p.run = [f, nt](pbt::Case& c)
    {
        world* w = nullptr;
        history(c, f, w);
        if (nt(*w)) c.nontrivial();
        w->scratch_.reset();
    };
    p.quick_cases = quick;
    p.thorough_cases = quick * 40;
    p.batch = 1;
    p.cpu_limit_s = 60;
    p.wall_limit_s = 120;
    p.workers = 0;
    pbt::add(p);
}
} // namespace

int main(int argc, char** argv)
{
    profile d{};
    d.prop = "";
    d.member = 12;
    {
        profile f = d, conflict = d; // leaders of short reach that leave conflicting logs behind
        conflict.w_epoch = 16;
        conflict.w_restart = 7;
        conflict.w_isol = 1;
        conflict.w_oneway = 1;
        conflict.mean_ops = 22;
        conflict.nmin = 2;
        conflict.snap = 25;
        conflict.w_contest = 2;
        reg("C01", f, "two or more terms had a leader", [](world& w) { return w.leader_of_.size() >= 2; }, 12000);
        reg("C02", conflict, "two or more terms had a leader and commands were applied", [](world& w) { return w.leader_of_.size() >= 2 && w.n_commits >= 3; }, 12000);
        reg("C03", conflict, "three or more terms had a leader, commands were committed and log entries were overwritten", [](world& w) { return w.leader_of_.size() >= 3 && w.n_commits >= 3 && w.n_overwrites > 0; }, 12000);
        reg("C04", conflict, "log entries were overwritten", [](world& w) { return w.n_overwrites > 0; }, 12000);
        reg("C05", f, "at least 5 commands applied and a crash, restart or snapshot installation happened", [](world& w) { return w.n_commits >= 5 && (w.n_restarts || w.n_snap_installed); }, 12000);
        conflict.w_contest = 8;
        reg("C06", conflict, "two or more terms had a leader and commands were committed", [](world& w) { return w.leader_of_.size() >= 2 && w.n_commits >= 3; }, 12000);
        reg("C07", f, "at least 2 votes granted, and a restart or a second term", [](world& w) { return w.n_votes >= 2 && (w.n_restarts || w.leader_of_.size() >= 2); }, 12000);
        conflict.w_contest = 1;
        conflict.snap = 15;
        reg("C08", conflict, "log entries that a server had pre-committed were overwritten", [](world& w) { return w.n_overwrites > 0; }, 12000);
        f = d;
        f.member = 0;
        reg("C09", f, "at least one crash, partition or loss happened and commands were applied", [](world& w) { return w.n_commits >= 1 && (w.n_crashes || w.n_crash_op || w.n_drops || w.leader_of_.size() > 1); }, 12000);
        f.snap = 100;
        f.w_follower_lag = 10;
        f.nmin = 2;
        f.member = d.member;
        reg("C10", f, "at least one snapshot was installed", [](world& w) { return w.n_snap_installed > 0; }, 12000);
        f.member = 40;
        f.volat = 55;
        f.w_restart = 6;
        f.w_crash = 5;
        reg("C11", f, "at least two compactions", [](world& w) { return w.n_compacts >= 2; }, 12000);
        f = d;
        f.snap = 60;
        reg("C12", f, "at least one crash, loss or leader change", [](world& w) { return w.n_crashes || w.n_crash_op || w.n_drops || w.leader_of_.size() > 1; }, 12000);
        f = d;
        f.prevote = 100;
        f.member = 0;
        f.nmin = 2;
        f.w_epoch = 2;
        reg("C14", f, "at least 2 prevote requests answered", [](world& w) { return w.n_pv_req >= 2; }, 12000);
        f = d;
        f.w_lease = 10;
        f.member = 0;
        f.w_isol_leader = 6;
        f.w_burst = 6;
        reg("C15", f, "a leader was asked with an expired quorum", [](world& w) { return w.n_lease_false > 0; }, 12000);
        f = d;
        with_members(f);
        f.member = 0;
        f.snap = 50;
        f.mean_ops = 12;
        reg("C13", f, "at least two membership changes were committed", [](world& w) { return w.confs_.size() >= 3; }, 12000);
        f = d;
        f.w_burst = 20;
        reg("C28", f, "accepted and rejected client calls both occurred", [](world& w) { return w.n_accepted > 0 && w.n_rejected > 0; }, 12000);
        f = d;
        f.w_restart = 6;
        f.snap = 30;
        reg("C29", f, "two or more terms had a leader and a server caught up at least three times", [](world& w) { return w.leader_of_.size() >= 2 && w.n_catch_up >= 3 && w.n_commits > 0; }, 12000);
        f = d;
        f.snap = 70;
        f.member = 25;
        f.w_follower_lag = 8;
        reg("C30", f, "a request of the configured full size was sent and more than ten timers were set", [](world& w) { return w.n_full > 0 && w.n_timers > 10; }, 12000);
        f = conflict;
        f.fs = 100;
        f.member = 30;
        f.snap = 60;
        f.w_follower_lag = 6;
        reg("C34", f, "log entries were overwritten, logs compacted or packs applied, and a server was restarted", [](world& w) { return (w.n_overwrites || w.n_compacts || !w.packs_.empty()) && w.n_restarts; }, 8000);
        f = conflict;
        f.repl = 12;
        f.copies = 15;
        f.member = 5;
        reg("C31", f, "a command came with the cookie it was given", [](world& w) { return w.n_cookies > 0; }, 12000);
        // every monitor at once (not registered in MANIFEST.json; for trying changes)
        f = d;
        f.member = 25;
        f.snap = 55;
        f.prevote = 35;
        f.w_lease = 4;
        f.w_follower_lag = 4;
        reg("ALL", f, "two or more terms had a leader", [](world& w) { return w.leader_of_.size() >= 2; }, 10000);
    }
    return pbt::main_loop(argc, argv);
}
