// Membership changes in the simulated cluster: requests, monitors and the healthy phase.
#include "sim.hpp"
#include <algorithm>

namespace sim
{
static std::string ids_text(const std::set<int>& s)
{
    std::string t = "{";
    for (int i : s) t += (t.size() > 1 ? "," : "") + std::to_string(i);
    return t + "}";
}
static std::map<int, std::string> conf_map(const std::string& s)
{
    std::map<int, std::string> r;
    ptr<cluster_config> c = conf_parse(s);
    for (auto& x : c->get_servers()) r[x->get_id()] = x->get_endpoint();
    return r;
}

std::vector<int> world::pool()
{
    std::vector<int> v;
    for (int i : prov_)
        if (!removed_.count(i) && !lost_.count(i)) v.push_back(i);
    if (v.empty()) v.push_back(1);
    return v;
}

int world::fresh_id()
{
    for (int i : ids_)
        if (i > p_.n && !prov_.count(i)) return i;
    return 0;
}

void world::provision(int id, bool copy_conf)
{
    int l = leader_guess();
    disk d;
    d.conf = copy_conf && l ? disk_of(l).conf : disks_[id].conf;
    disks_[id] = d;
    prov_.insert(id);
    start(id);
}

// the persisted configuration, the one before and the ones after it in the log
std::vector<std::set<int>> world::views(inc* i)
{
    std::vector<std::set<int>> v;
    v.push_back(conf_ids(i->d.conf));
    ulong own = conf_parse(i->d.conf)->get_log_idx();
    for (ulong k = i->d.next(); k-- > i->d.start;)
    {
        const entry* e = i->d.at(k);
        if (!e || e->type != log_val_type::conf) continue;
        v.push_back(conf_ids(e->data));
        if (k < own) break;
    }
    for (auto it = confs_.rbegin(); it != confs_.rend(); ++it)
        if (it->first < own)
        {
            v.push_back(conf_ids(it->second));
            break;
        }
    return v;
}

void world::mon_conf_write(inc* i, ulong idx, const entry& e)
{
    if (!i->lead && e.term != i->d.term)
        violate("C13", "written-by-non-leader", "server %d writes a configuration of term %llu in term %llu", i->id, (unsigned long long)e.term, (unsigned long long)i->d.term);
    ptr<cluster_config> c = conf_parse(e.data);
    for (auto& x : c->get_servers()) ever_.insert(x->get_id());
    if (c->get_log_idx() != idx)
        violate("C13", "config-index", "server %d stores at index %llu a configuration that claims to be at index %llu", i->id, (unsigned long long)idx, (unsigned long long)c->get_log_idx());
    std::map<int, std::string> now = conf_map(e.data), was = conf_map(i->d.conf);
    if (now.size() != c->get_servers().size())
        violate("C13", "duplicate-member", "server %d writes a configuration that lists a server twice", i->id);
    ulong prev = 0;
    for (ulong k = idx; k-- > i->d.start;)
    {
        const entry* x = i->d.at(k);
        if (!x || x->type != log_val_type::conf) continue;
        if (k > max_committed_)
            violate("C13", "second-change", "server %d writes a configuration at index %llu while the one at index %llu of its log is not committed", i->id, (unsigned long long)idx, (unsigned long long)k);
        was = conf_map(x->data);
        prev = k;
        break;
    }
    size_t diff = 0;
    for (auto& s : now)
    {
        if (!was.count(s.first))
            ++diff;
        else if (was[s.first] != s.second)
            violate("C13", "member-changed", "server %d writes a configuration that changes the address of server %d", i->id, s.first);
    }
    for (auto& s : was)
        if (!now.count(s.first)) ++diff;
    if (diff > 1)
        violate("C13", "step-too-big", "server %d writes a configuration that differs in %zu servers from the one before", i->id, diff);
    if (prev && c->get_prev_log_idx() != prev)
        violate("C13", "prev-index", "server %d writes a configuration that names %llu as its predecessor, which is at %llu", i->id, (unsigned long long)c->get_prev_log_idx(), (unsigned long long)prev);
    if (i->lead && was.size() == 2 && now.size() == 1)
    {
        ulong own = conf_parse(i->d.conf)->get_log_idx();
        for (int id : prov_)
            if (id != i->id && was_member(id) && conf_parse(disk_of(id).conf)->get_log_idx() < own) forced_lag_ = true;
        for (int id = 1; id <= p_.n; ++id)
            if (id != i->id && conf_parse(disk_of(id).conf)->get_log_idx() < own) forced_lag_ = true;
        if (forced_lag_) c_.label("two-server-removal");
    }
    if (was.count(i->id) && !now.count(i->id))
        violate("C13", "leader-removed", "leader %d writes a configuration without itself", i->id);
}

void world::mon_conf_saved(inc* i, const std::string& old)
{
    ptr<cluster_config> c = conf_parse(i->d.conf);
    std::map<int, std::string> m = conf_map(i->d.conf);
    ulong k = c->get_log_idx();
    if (m.count(i->id))
        joined_.insert(i->id);
    else if (conf_map(old).count(i->id))
    {
        if (i->leave_ok && conf_parse(old)->get_log_idx() == k) return; // takes itself off before it stops
        i->leave_ok = true;
    }
    // (a joining server takes over what it gets)
    if ((i->id <= p_.n || joined_.count(i->id)) && k < conf_parse(old)->get_log_idx())
        violate("C13", "config-goes-back", "server %d persists the configuration of index %llu after the one of index %llu", i->id, (unsigned long long)k, (unsigned long long)conf_parse(old)->get_log_idx());
    if (k == 0) return;
    const entry* e = i->d.at(k);
    if (e && k > max_committed_) mon_commit_index(i, k, "configuration taken into use");
    if (e && (e->type != log_val_type::conf || conf_map(e->data) != m))
        violate("C13", "saved-other", "server %d persists members %s for index %llu, its log holds something else there", i->id, ids_text(conf_ids(i->d.conf)).c_str(), (unsigned long long)k);
    std::string t;
    for (auto& x : m) t += std::to_string(x.first) + "=" + x.second + ";";
    auto it = saved_.find(k);
    if (it == saved_.end())
        saved_[k] = t;
    else if (it->second != t)
        violate("C13", "disagree", "servers persist different members for the configuration at index %llu: %s and %s", (unsigned long long)k, it->second.c_str(), t.c_str());
}

bool world::member_req(int at, bool add, int target)
{
    inc* i = up(at);
    if (!i) return false;
    bufptr b = buffer::alloc(0);
    if (add)
        b = srv_config(target, "sim://" + std::to_string(target)).serialize();
    else
    {
        b = buffer::alloc(sz_int);
        b->put((int32)target);
        b->pos(0);
    }
    ptr<req_msg> req = cs_new<req_msg>((ulong)0, add ? msg_type::add_server_request : msg_type::remove_server_request, 0, at, (ulong)0, (ulong)0, (ulong)0);
    req->log_entries().push_back(cs_new<log_entry>(0, std::move(b), log_val_type::cluster_server));
    bool lead = i->lead;
    std::set<int> mem = conf_ids(i->d.conf);
    bool pending = false;
    for (ulong k = i->d.start; k < i->d.next(); ++k)
        if (i->d.at(k)->type == log_val_type::conf && k > max_committed_) pending = true;
    ulong next0 = i->d.next();
    begin_call(i, add ? msg_type::add_server_request : msg_type::remove_server_request);
    ptr<resp_msg> resp;
    guarded(i, "membership request", [&]() { resp = i->rs->process_req(*req); });
    end_call(i);
    if (!i->alive || !resp) return false;
    bool acc = resp->get_accepted();
    note("S%d %s S%d: accepted %d", at, add ? "add" : "remove", target, acc);
    const char* what = add ? "add" : "remove";
    if (!acc) n_refused++;
    else
        (add ? n_adds : n_rms)++;
    if (acc && !lead) violate("C13", "accepted-by-non-leader", "server %d accepts to %s server %d although it is not leader", at, what, target);
    if (acc && pending) violate("C13", "accepted-while-changing", "server %d accepts to %s server %d while a configuration of its log is not committed", at, what, target);
    if (acc && add && mem.count(target)) violate("C13", "add-existing", "server %d accepts to add server %d, which is a member", at, target);
    if (acc && !add && !mem.count(target)) violate("C13", "remove-unknown", "server %d accepts to remove server %d, which is no member", at, target);
    if (acc && !add && target == at) violate("C13", "remove-leader", "leader %d accepts to remove itself", at);
    if (!acc && i->d.next() != next0) violate("C13", "refused-but-changed", "server %d refuses to %s server %d but its log grew", at, what, target);
    return acc;
}

void world::member_api(int at, bool add, int target)
{
    inc* i = up(at);
    if (!i) return;
    begin_call(i, add ? msg_type::add_server_request : msg_type::remove_server_request);
    guarded(i, add ? "add_srv" : "remove_srv",
            [&]()
            {
                if (add)
                    i->rs->add_srv(srv_config(target, "sim://" + std::to_string(target)));
                else
                    i->rs->remove_srv(target);
            });
    end_call(i);
}

void world::bad_member_req(int at, int kind)
{
    inc* i = up(at);
    if (!i) return;
    bool add = kind & 1;
    ptr<req_msg> req = cs_new<req_msg>((ulong)0, add ? msg_type::add_server_request : msg_type::remove_server_request, 0, at, (ulong)0, (ulong)0, (ulong)0);
    int n = (kind >> 1) % 3; // none, one of a wrong kind, two
    for (int k = 0; k < n; ++k)
    {
        bufptr b = mkbuf(std::string(n == 1 ? 3 : 4, 'x'));
        req->log_entries().push_back(cs_new<log_entry>(0, std::move(b), n == 1 ? log_val_type::app_log : log_val_type::cluster_server));
    }
    ulong next0 = i->d.next();
    begin_call(i, req->get_type());
    ptr<resp_msg> resp;
    guarded(i, "membership request", [&]() { resp = i->rs->process_req(*req); });
    end_call(i);
    if (i->alive && resp && (resp->get_accepted() || i->d.next() != next0))
        violate("C13", "bad-request", "server %d accepts a malformed %s request", at, add ? "add" : "remove");
}

std::set<int> world::agreed()
{
    if (confs_.empty())
    {
        std::set<int> m;
        for (int i = 1; i <= p_.n; ++i) m.insert(i);
        return m;
    }
    return conf_ids(confs_.rbegin()->second);
}

// servers that are no members (any more) are switched off as soon as a leader knows
void world::switch_off()
{
    std::set<int> mem = agreed();
    int L = 0;
    for (int id : mem)
        if (up(id) && up(id)->lead && (!L || up(id)->d.term > up(L)->d.term)) L = id;
    if (!L || conf_ids(up(L)->d.conf) != mem) return;
    for (int id : pool())
        if (!mem.count(id) && up(id)) kill(up(id), "switched off");
}

bool world::steady(int tries)
{
    std::string probe;
    int stable = 0;
    for (int k = 0; k < tries; ++k)
    {
        run_for((vtime)p_.el_hi * 1000);
        if (c_.rec()->status == pbt::st_discard) return false;
        std::set<int> mem = agreed(), av;
        switch_off();
        for (int id : mem)
        {
            start(id);
            if (up(id)) av.insert(id);
        }
        int L = 0; // (may be a server whose removal is committed without its knowledge)
        for (auto& l : live_)
            if (l.second->lead && (!L || l.second->d.term > up(L)->d.term)) L = l.first;
        bool same = mem.count(L) && !probe.empty() && cmd_idx_.count(probe) != 0;
        for (int id : av)
        {
            inc* i = up(id);
            if (!same) break;
            if (!i || i->d.sm != up(L)->d.sm || i->applied < cmd_idx_[probe]) same = false;
            if (same && conf_ids(i->d.conf) != mem) same = false;
        }
        if (same && ++stable >= 2)
        {
            std::map<ulong, std::string> m(up(L)->d.sm.begin(), up(L)->d.sm.end());
            for (auto& a : applied_)
                if (!m.count(a.first) || m[a.first] != a.second)
                {
                    violate("C13", "lost-command", "the command applied at index %llu is not in the final state", (unsigned long long)a.first);
                    break;
                }
            return true;
        }
        if (!same) stable = 0;
        if (L && !same)
        {
            std::set<std::string> before = submitted_;
            client_batch(L, 1, 12);
            for (auto& s : submitted_)
                if (!before.count(s)) probe = s;
        }
    }
    return false;
}

void world::healthy_changes()
{
    op("heal");
    quiet_ = true;
    heal_links();
    net_ = mode();
    for (auto& p : live_)
    {
        p.second->frozen = false;
        p.second->crash_in = -1;
    }
    release_held(0, true);
    run_for((vtime)p_.el_hi * 1000);
    switch_off();
    auto state = [&]()
    {
        std::string d;
        for (int id : agreed())
        {
            inc* i = up(id);
            char b[200];
            if (i)
                snprintf(b, sizeof b, " S%d: %s term %llu log [%llu,%llu) applied %llu members %s;", id, i->lead ? "leader" : "follower", (unsigned long long)i->d.term, (unsigned long long)i->d.start, (unsigned long long)i->d.next(), (unsigned long long)i->applied, ids_text(conf_ids(i->d.conf)).c_str());
            else
                snprintf(b, sizeof b, " S%d: gone;", id);
            d += b;
        }
        return d;
    };
    auto quorum = [&]()
    {
        auto enough = [&](const std::set<int>& m)
        {
            size_t n = 0;
            for (int id : m)
                if (!lost_.count(id) && !removed_.count(id)) ++n;
            return n > m.size() / 2;
        };
        if (!enough(agreed())) return false;
        // a server may not know that the agreed configuration is committed and needs votes of an earlier one
        for (auto& l : live_)
            for (auto& v : views(l.second))
                if (!enough(v)) return false;
        return true;
    };
    auto settle = [&](const char* when) -> bool
    {
        bool ok = steady(100);
        if (ok && quorum()) return true;
        if (!quorum())
        {
            c_.label("quorum-lost");
            return false;
        }
        violate("C13", "no-progress", "the members do not agree and make progress within 100 election timeouts %s:%s", when, state().c_str());
        return false;
    };
    if (!settle("after healing")) return;
    c_.label("steady");
    for (int round = 0; round < 3; ++round)
    {
        int L = leader_guess();
        std::set<int> mem = agreed();
        int kind = round == 0 ? 1 : (int)g_.below(2);
        if (kind == 1)
        {
            int x = fresh_id();
            if (!x) return;
            op("add S%d in good health", x);
            bool ok = false;
            for (int tries = 0; tries < 3 && !ok; ++tries)
            {
                x = fresh_id();
                if (!x) return;
                provision(x, g_.below(2) != 0);
                L = leader_guess();
                if (!member_req(L, true, x))
                {
                    violate("C13", "add-refused", "leader %d refuses to add server %d although nothing stands against it; members %s", L, x, ids_text(mem).c_str());
                    return;
                }
                for (int k = 0; k < 60 && !ok; ++k)
                {
                    run_for((vtime)p_.el_hi * 500);
                    ok = agreed().count(x) != 0;
                    if (k % 4 == 3 && !ok) client_batch(leader_guess(), 1, 8);
                    if (leader_guess() != L) break;
                }
                if (!ok && leader_guess() == L)
                {
                    violate("C13", "add-incomplete", "server %d was added to a healthy cluster but did not become a member in 30 election timeouts; members %s:%s", x, ids_text(agreed()).c_str(), state().c_str());
                    return;
                }
                if (!ok && up(x)) kill(up(x), "switched off");
            }
            if (!ok) return;
            std::set<int> want = mem;
            want.insert(x);
            if (agreed() != want)
                violate("C13", "wrong-members", "after adding %d to %s the members are %s", x, ids_text(mem).c_str(), ids_text(agreed()).c_str());
            if (!settle("after adding a server")) return;
            if (!up(x)) violate("C13", "added-not-running", "the added server %d is not running any more", x);
            c_.label("healthy add");
        }
        else
        {
            std::vector<int> v;
            for (int id : mem)
                if (id != L) v.push_back(id);
            if (v.empty()) continue;
            int x = v[g_.below((uint32_t)v.size())];
            for (int id : v)
                if (lost_.count(id) || removed_.count(id)) x = id; // get rid of dead servers first
            bool dead = !up(x);
            if (!dead && mem.size() > 2 && g_.below(4) == 0)
            {
                size_t alive = 0;
                for (int id : mem)
                    if (up(id)) ++alive;
                if (alive - 1 > mem.size() / 2)
                {
                    crash(x);
                    lost_.insert(x);
                    dead = true;
                }
            }
            op("remove S%d%s in good health", x, dead ? " (dead)" : "");
            if (!member_req(L, false, x))
            {
                violate("C13", "remove-refused", "leader %d refuses to remove server %d although nothing stands against it; members %s", L, x, ids_text(mem).c_str());
                return;
            }
            bool ok = false;
            for (int k = 0; k < 60 && !ok; ++k)
            {
                run_for((vtime)p_.el_hi * 500);
                ok = !agreed().count(x);
                if (leader_guess() != L) break;
            }
            if (!ok)
            {
                if (leader_guess() == L)
                    violate("C13", "remove-incomplete", "server %d was removed from a healthy cluster but is still a member after 30 election timeouts; members %s:%s", x, ids_text(agreed()).c_str(), state().c_str());
                return;
            }
            std::set<int> want = mem;
            want.erase(x);
            if (agreed() != want)
                violate("C13", "wrong-members", "after removing %d from %s the members are %s", x, ids_text(mem).c_str(), ids_text(agreed()).c_str());
            if (!dead)
            {
                for (int k = 0; k < 20 && up(x); ++k) run_for((vtime)p_.el_hi * 1000);
                if (up(x))
                {
                    violate("C13", "removed-stays", "the removed server %d is still running 20 election timeouts later", x);
                    kill(up(x), "switched off");
                }
                removed_.insert(x);
            }
            if (!settle("after removing a server")) return;
            c_.label("healthy remove");
        }
    }
}
} // namespace sim
