#include "sim.hpp"
#include <cstdarg>
#include <cstring>
#include <unistd.h>

namespace sim
{
// ---------------------------------------------------------------- helpers
std::string buf_bytes(buffer& b, bool from_start)
{
    size_t p = b.pos();
    if (from_start) b.pos(0);
    std::string s((const char*)b.data(), b.size() - b.pos());
    b.pos(p);
    return s;
}
bufptr mkbuf(const std::string& s)
{
    bufptr b = buffer::alloc(s.size());
    if (!s.empty()) memcpy(b->data(), s.data(), s.size());
    return b;
}
std::string conf_bytes(const cluster_config& c)
{
    bufptr b = const_cast<cluster_config&>(c).serialize();
    return buf_bytes(*b, true);
}
ptr<cluster_config> conf_parse(const std::string& s)
{
    bufptr b = mkbuf(s);
    return cluster_config::deserialize(*b);
}
std::set<int> conf_ids(const std::string& s)
{
    std::set<int> r;
    ptr<cluster_config> c = conf_parse(s);
    for (auto& x : c->get_servers()) r.insert(x->get_id());
    return r;
}
static std::string ids_text(const std::set<int>& s)
{
    std::string t = "{";
    for (int i : s) t += (t.size() > 1 ? "," : "") + std::to_string(i);
    return t + "}";
}
static std::string brief(const std::string& s) { return s.size() > 24 ? s.substr(0, 24) + "..." : s; }

// ---------------------------------------------------------------- log store
mem_log::mem_log(inc* i) : i_(i)
{
    for (auto& e : i->d.log) live_.push_back(cs_new<log_entry>(e.term, mkbuf(e.data), (log_val_type)e.type));
    if (!i->w->p_.fs) return;
    dir_ = i->w->log_dir(i->id, i->no);
    std::filesystem::create_directories(dir_);
    try
    {
        fs_ = new fs_log_store(dir_, i->w->p_.fs);
    }
    catch (std::exception& e)
    {
        i->w->violate("C34", "reopen", "the log store of server %d cannot be opened: %s", i->id, e.what());
        return;
    }
    ends("opening it");
    for (ulong k = i->d.start; k < i->d.next(); ++k) same("entry_at after opening", k, fs_->entry_at(k), i->d.at(k));
}
static std::string raw_bytes(buffer& b) { return std::string(reinterpret_cast<const char*>(b.data()) - b.pos(), b.size()); }
void mem_log::same(const char* call, ulong idx, const ptr<log_entry>& got, const entry* want) const
{
    if (!i_->alive) return;
    if (!got)
        i_->w->violate("C34", "missing", "%s of the log store of server %d gives nothing for index %llu, the log is [%llu,%llu)", call, i_->id, (unsigned long long)idx, (unsigned long long)i_->d.start, (unsigned long long)i_->d.next());
    else if (got->get_term() != want->term || (int)got->get_val_type() != want->type || raw_bytes(got->get_buf()) != want->data)
        i_->w->violate("C34", "entry", "%s of the log store of server %d gives for index %llu an entry of term %llu, type %d, '%s'; written was term %llu, type %d, '%s'", call, i_->id, (unsigned long long)idx, (unsigned long long)got->get_term(), (int)got->get_val_type(), brief(raw_bytes(got->get_buf())).c_str(), (unsigned long long)want->term, want->type, brief(want->data).c_str());
}
void mem_log::ends(const char* call) const
{
    if (i_->alive && (fs_->start_index() != i_->d.start || fs_->next_slot() != i_->d.next()))
        i_->w->violate("C34", "bounds", "after %s the log store of server %d is [%llu,%llu), it should be [%llu,%llu)", call, i_->id, (unsigned long long)fs_->start_index(), (unsigned long long)fs_->next_slot(), (unsigned long long)i_->d.start, (unsigned long long)i_->d.next());
}
void mem_log::threw(const char* call, bool valid, const char* what) const
{
    if (valid && i_->alive) i_->w->violate("C34", "threw", "%s of the log store of server %d, which is [%llu,%llu), throws: %s", call, i_->id, (unsigned long long)i_->d.start, (unsigned long long)i_->d.next(), what);
}
void mem_log::left_behind()
{
    if (!fs_) return;
    std::error_code ec;
    std::filesystem::copy(dir_, i_->w->log_dir(i_->id, i_->no + 1), std::filesystem::copy_options::recursive, ec);
}
ulong mem_log::next_slot() const
{
    if (fs_) ends("next_slot");
    return fs_ ? fs_->next_slot() : i_->d.next();
}
ulong mem_log::start_index() const
{
    if (fs_) ends("start_index");
    return fs_ ? fs_->start_index() : i_->d.start;
}
ptr<log_entry> mem_log::last_entry() const
{
    if (fs_)
    {
        ptr<log_entry> e = fs_->last_entry();
        if (!live_.empty())
            same("last_entry", i_->d.next() - 1, e, &i_->d.log.back());
        else if (i_->alive && (!e || e->get_term() != 0))
            i_->w->violate("C34", "entry", "last_entry of the empty log store of server %d is %s", i_->id, e ? "not the dummy entry" : "null");
        return e;
    }
    if (live_.empty()) return cs_new<log_entry>(0, buffer::alloc(0), log_val_type::app_log);
    return live_.back();
}
ptr<log_entry> mem_log::get(ulong index)
{
    if (i_->w->p_.log_copies)
    {
        const entry& e = i_->d.log[index - i_->d.start];
        return cs_new<log_entry>(e.term, mkbuf(e.data), (log_val_type)e.type);
    }
    return live_[index - i_->d.start];
}
ulong mem_log::append(ptr<log_entry>& e)
{
    i_->w->storage_op(i_, true);
    ulong idx = i_->d.next();
    e->get_buf().pos(0);
    entry x{e->get_term(), (int)e->get_val_type(), buf_bytes(e->get_buf(), true)};
    i_->w->mon_log_write(i_, idx, x);
    i_->d.log.push_back(x);
    live_.push_back(e);
    if (fs_)
    {
        ulong got = doing("append", true, [&] { return fs_->append(e); });
        if (i_->alive && got != idx) i_->w->violate("C34", "append-index", "append to the log store of server %d gives index %llu, the entry is number %llu", i_->id, (unsigned long long)got, (unsigned long long)idx);
        ends("append");
    }
    i_->w->storage_op(i_, false);
    return idx;
}
void mem_log::write_at(ulong index, ptr<log_entry>& e)
{
    disk& d = i_->d;
    if (index < d.start || index > d.next()) throw std::range_error("index out of range");
    i_->w->storage_op(i_, true);
    e->get_buf().pos(0);
    entry x{e->get_term(), (int)e->get_val_type(), buf_bytes(e->get_buf(), true)};
    if (index < d.next())
    {
        bool same = *d.at(index) == x;
        i_->w->mon_log_drop(i_, index, d.next(), same ? index : 0);
        d.log.erase(d.log.begin() + (long)(index - d.start), d.log.end());
        live_.erase(live_.begin() + (long)(index - d.start), live_.end());
    }
    i_->w->mon_log_write(i_, index, x);
    d.log.push_back(x);
    live_.push_back(e);
    if (fs_)
    {
        doing("write_at", true, [&] { fs_->write_at(index, e); });
        ends("write_at");
    }
    i_->w->storage_op(i_, false);
}
ptr<std::vector<ptr<log_entry>>> mem_log::log_entries(ulong start, ulong end)
{
    disk& d = i_->d;
    if (fs_)
    {
        ptr<std::vector<ptr<log_entry>>> v = doing("log_entries", start >= d.start, [&] { return fs_->log_entries(start, end); });
        ulong stop = std::min(end, d.next());
        size_t want = start < stop ? (size_t)(stop - start) : 0;
        if (i_->alive && start >= d.start && (v ? v->size() : 0) != want)
            i_->w->violate("C34", "missing", "log_entries(%llu, %llu) of the log store of server %d, which is [%llu,%llu), gives %zu entries", (unsigned long long)start, (unsigned long long)end, i_->id, (unsigned long long)d.start, (unsigned long long)d.next(), v ? v->size() : 0);
        for (size_t k = 0; start >= d.start && k < want && k < v->size(); ++k) same("log_entries", start + k, (*v)[k], d.at(start + k));
        return v;
    }
    if (start < d.start) throw std::range_error("index out of range");
    if (start >= end || start >= d.next()) return ptr<std::vector<ptr<log_entry>>>();
    ptr<std::vector<ptr<log_entry>>> v = cs_new<std::vector<ptr<log_entry>>>();
    for (ulong k = start; k < end && k < d.next(); ++k) v->push_back(get(k));
    return v;
}
ptr<log_entry> mem_log::entry_at(ulong index)
{
    if (!fs_ && index < i_->d.start) throw std::range_error("index out of range");
    if (!fs_ && index >= i_->d.next()) return ptr<log_entry>();
    if (coop::self() && i_->w->p_.fine && i_->alive && i_->w->g_.chance(1, 6)) coop::pause();
    if (fs_)
    {
        ptr<log_entry> e = doing("entry_at", index >= i_->d.start, [&] { return fs_->entry_at(index); });
        if (index >= i_->d.start && index < i_->d.next())
            same("entry_at", index, e, i_->d.at(index));
        else if (e && index >= i_->d.next() && i_->alive)
            i_->w->violate("C34", "entry", "entry_at(%llu) of the log store of server %d, which ends at %llu, gives an entry", (unsigned long long)index, i_->id, (unsigned long long)i_->d.next());
        return e;
    }
    if (index < i_->d.start) throw std::range_error("index out of range");
    if (index >= i_->d.next()) return ptr<log_entry>();
    return get(index);
}
ulong mem_log::term_at(ulong index)
{
    if (fs_)
    {
        ulong t = doing("term_at", index >= i_->d.start && index < i_->d.next(), [&] { return fs_->term_at(index); });
        if (i_->alive && index >= i_->d.start && index < i_->d.next() && t != i_->d.at(index)->term)
            i_->w->violate("C34", "term", "term_at(%llu) of the log store of server %d is %llu, the entry has term %llu", (unsigned long long)index, i_->id, (unsigned long long)t, (unsigned long long)i_->d.at(index)->term);
        return t;
    }
    if (index < i_->d.start) throw std::range_error("index out of range");
    if (index >= i_->d.next()) throw std::range_error("index beyond the log");
    return i_->d.at(index)->term;
}
bufptr mem_log::pack(ulong index, int32 cnt)
{
    disk& d = i_->d;
    if (index < d.start) throw std::range_error("index out of range");
    if (cnt > i_->w->p_.sync_batch || cnt < 0)
        i_->w->violate("C30", "pack-size", "server %d packs %d log entries for a joining server, configured are at most %d", i_->id, cnt, i_->w->p_.sync_batch);
    if (fs_)
    {
        bufptr b = doing("pack", true, [&] { return fs_->pack(index, cnt); });
        std::vector<entry>& es = i_->w->packs_[raw_bytes(*b)];
        es.clear();
        for (ulong k = index; k < d.next() && cnt > 0; ++k, --cnt) es.push_back(*d.at(k));
        return b;
    }
    std::string s;
    for (ulong k = index; k < d.next() && cnt > 0; ++k, --cnt)
    {
        const entry& e = *d.at(k);
        char h[32];
        snprintf(h, sizeof h, "%016llx%02x%08x", (unsigned long long)e.term, e.type, (unsigned)e.data.size());
        s += h;
        s += e.data;
    }
    return mkbuf(s);
}
void mem_log::apply_pack(ulong index, buffer& pack)
{
    disk& d = i_->d;
    if (index < d.start || index > d.next()) throw std::range_error("index out of range");
    i_->w->storage_op(i_, true);
    std::vector<entry> es;
    if (fs_)
    {
        auto p = i_->w->packs_.find(buf_bytes(pack, false));
        if (p == i_->w->packs_.end()) p = i_->w->packs_.find(raw_bytes(pack));
        if (p == i_->w->packs_.end())
            i_->w->violate("C34", "foreign-pack", "server %d is to apply a log pack that no log store made", i_->id);
        else
            es = p->second;
    }
    else
    {
        std::string s = buf_bytes(pack, false);
        for (size_t p = 0; p + 26 <= s.size();)
        {
            entry e;
            e.term = strtoull(s.substr(p, 16).c_str(), nullptr, 16);
            e.type = (int)strtoul(s.substr(p + 16, 2).c_str(), nullptr, 16);
            size_t n = strtoul(s.substr(p + 18, 8).c_str(), nullptr, 16);
            e.data = s.substr(p + 26, n);
            p += 26 + n;
            es.push_back(e);
        }
    }
    ulong keep = index;
    while (keep < d.next() && keep - index < es.size() && *d.at(keep) == es[keep - index]) ++keep;
    if (keep < d.next()) i_->w->mon_log_drop(i_, keep, d.next(), 0);
    d.log.erase(d.log.begin() + (long)(index - d.start), d.log.end());
    live_.erase(live_.begin() + (long)(index - d.start), live_.end());
    for (size_t k = 0; k < es.size(); ++k)
    {
        i_->w->mon_log_write(i_, index + k, es[k]);
        d.log.push_back(es[k]);
        live_.push_back(cs_new<log_entry>(es[k].term, mkbuf(es[k].data), (log_val_type)es[k].type));
    }
    if (fs_)
    {
        doing("apply_pack", true, [&] { fs_->apply_pack(index, pack); });
        ends("apply_pack");
        for (size_t k = 0; k < es.size(); ++k) same("entry_at after apply_pack", index + k, fs_->entry_at(index + k), &es[k]);
    }
    i_->w->storage_op(i_, false);
}
bool mem_log::compact(ulong last)
{
    disk& d = i_->d;
    if (last < d.start) throw std::range_error("index out of range");
    i_->w->storage_op(i_, true);
    i_->w->mon_compact(i_, last);
    if (last >= d.next() - 1)
    {
        d.log.clear();
        live_.clear();
    }
    else
    {
        d.log.erase(d.log.begin(), d.log.begin() + (long)(last - d.start + 1));
        live_.erase(live_.begin(), live_.begin() + (long)(last - d.start + 1));
    }
    d.start = last + 1;
    if (fs_)
    {
        bool ok = doing("compact", true, [&] { return fs_->compact(last); });
        if (!ok && i_->alive) i_->w->violate("C34", "compact", "the log store of server %d cannot be compacted up to %llu", i_->id, (unsigned long long)last);
        ends("compact");
    }
    i_->w->storage_op(i_, false);
    return true;
}

// ---------------------------------------------------------------- state manager
ptr<cluster_config> mem_mgr::load_config() { return conf_parse(i_->d.conf); }
void mem_mgr::save_config(const cluster_config& config)
{
    i_->w->storage_op(i_, true);
    std::string old = i_->d.conf;
    i_->d.conf = conf_bytes(config);
    i_->w->note("S%d save_config idx=%llu %s", i_->id, (unsigned long long)config.get_log_idx(), ids_text(conf_ids(i_->d.conf)).c_str());
    if (i_->alive && i_->w->membership_) i_->w->mon_conf_saved(i_, old);
    i_->w->storage_op(i_, false);
}
void mem_mgr::save_state(const srv_state& s)
{
    i_->w->storage_op(i_, true);
    ulong ot = i_->d.term;
    int ov = i_->d.voted;
    i_->d.has_state = true;
    i_->d.term = s.get_term();
    i_->d.voted = s.get_voted_for();
    if (i_->alive) i_->w->mon_state(i_, ot, ov);
    i_->w->storage_op(i_, false);
}
ptr<srv_state> mem_mgr::read_state()
{
    if (!i_->d.has_state) return ptr<srv_state>();
    ptr<srv_state> s = cs_new<srv_state>();
    s->set_term(i_->d.term);
    s->set_voted_for(i_->d.voted);
    return s;
}
ptr<log_store> mem_mgr::load_log_store() { return i_->log; }
int32 mem_mgr::server_id() { return i_->id; }
void mem_mgr::system_exit(const int code)
{
    i_->w->on_exit(i_, code);
    if (coop::self()) coop::park();
    throw server_exit();
}

// ---------------------------------------------------------------- state machine
// what a state machine finds in a buffer it is given; it may read by get(), which moves the position
static std::string sm_read(inc* i, buffer& b, const char* prop, const char* what, ulong idx, bool may_pause)
{
    world* w = i->w;
    std::string s = buf_bytes(b, false);
    if (!w->p_.sm_reads) return s;
    size_t from = b.pos();
    if (b.size() > from) b.pos(from + w->g_.below((uint32_t)(b.size() - from) + 1));
    if (may_pause && w->p_.fine && w->g_.chance(1, 3))
    {
        size_t at = b.pos();
        coop::pause();
        if (i->alive && b.pos() != at)
            w->violate(prop, "read-moved", "server %d: while the state machine reads the command at index %llu given to %s, somebody else moves its read position from %zu to %zu", i->id, (unsigned long long)idx, what, at, b.pos());
        if (i->alive) b.pos(b.size());
    }
    return s;
}
void mem_sm::commit(const ulong idx, buffer& data, const uptr<log_entry_cookie>& cookie)
{
    inc* i = i_;
    world* w = i->w;
    if (coop::self() && w->p_.fine && i->alive && w->g_.chance(1, 4)) coop::pause();
    if (!i->alive) coop::self() ? coop::park() : (void)0;
    std::string s = sm_read(i, data, "C05", "commit", idx, coop::self());
    if (!i->alive) coop::self() ? coop::park() : (void)0;
    w->storage_op(i, true);
    if (!i->alive) return;
    w->note("S%d commit %llu '%s'", i->id, (unsigned long long)idx, brief(s).c_str());
    const entry* e = i->d.at(idx);
    if (!e || e->type != log_val_type::app_log)
        w->violate("C05", "apply-not-app", "server %d applied index %llu which is %s", i->id, (unsigned long long)idx, e ? "not a client entry" : "not in its log");
    else if (e->data != s)
        w->violate("C05", "apply-bytes", "server %d applied '%s' at index %llu, its log holds '%s'", i->id, brief(s).c_str(), (unsigned long long)idx, brief(e->data).c_str());
    if (idx <= i->applied)
        w->violate("C05", "apply-order", "server %d applied index %llu after index %llu was already applied", i->id, (unsigned long long)idx, (unsigned long long)i->applied);
    else
        for (ulong k = i->applied + 1; k < idx; ++k)
        {
            const entry* x = i->d.at(k);
            if (x ? x->type == log_val_type::app_log : k >= i->d.start)
            {
                w->violate("C05", "apply-gap", "server %d applied index %llu right after %llu, skipping the client entry at %llu", i->id, (unsigned long long)idx, (unsigned long long)i->applied, (unsigned long long)k);
                break;
            }
            if (!x && i->d.start > k)
            {
                w->violate("C05", "apply-gap", "server %d applied index %llu right after %llu although the log starts at %llu", i->id, (unsigned long long)idx, (unsigned long long)i->applied, (unsigned long long)i->d.start);
                break;
            }
        }
    if (i->origin.count(idx) && i->origin[idx] == 1 && !i->pre.count(idx))
        w->violate("C08", "commit-without-pre", "server %d committed index %llu without announcing it by pre-commit", i->id, (unsigned long long)idx);
    if (i->pre.count(idx) && i->pre[idx] != s)
        w->violate("C08", "pre-bytes", "server %d committed '%s' at index %llu but pre-committed '%s'", i->id, brief(s).c_str(), (unsigned long long)idx, brief(i->pre[idx]).c_str());
    w->mon_cookie(i, idx, s, cookie, "commit");
    i->idle_told = false;
    i->pre.erase(idx);
    i->applied = std::max<ulong>(i->applied, idx);
    w->mon_applied(i, idx, s, "commit");
    w->n_commits++;
    i->d.sm.push_back({idx, s});
    i->d.sm_idx = idx;
    if (w->p_.snap_dist > 0 && !i->snap_pending && w->target("C11"))
    {
        ulong base = std::max(i->snap_base, i->d.start);
        if (w->membership_ && i->id > w->p_.n && !w->joined_.count(i->id)) i->since_free = 0; // joining servers make no snapshots
        if (++i->since_free > 2 && idx > base + 2 * (ulong)w->p_.snap_dist + 6)
            w->violate("C11", "no-snapshot", "server %d applied index %llu, the last snapshot is at %llu, log starts at %llu, distance %d, and no further snapshot was requested", i->id, (unsigned long long)idx, (unsigned long long)i->snap_base, (unsigned long long)i->d.start, w->p_.snap_dist);
    }
    w->storage_op(i, false);
    if (coop::self() && w->p_.fine && i->alive && w->g_.chance(1, 6)) coop::pause();
    if (!i->alive && coop::self()) coop::park();
}
void mem_sm::pre_commit(const ulong idx, buffer& data, const uptr<log_entry_cookie>& cookie)
{
    inc* i = i_;
    if (!i->alive) return;
    std::string s = sm_read(i, data, "C08", "pre-commit", idx, false);
    const entry* e = i->d.at(idx);
    i->w->note("S%d pre_commit %llu '%s'", i->id, (unsigned long long)idx, brief(s).c_str());
    if (!e || e->type != log_val_type::app_log || e->data != s)
        i->w->violate("C08", "pre-mismatch", "server %d pre-committed '%s' at index %llu where its log holds %s", i->id, brief(s).c_str(), (unsigned long long)idx, e ? ("'" + brief(e->data) + "'").c_str() : "nothing");
    if (i->pre.count(idx))
        i->w->violate("C08", "pre-twice", "server %d pre-committed index %llu twice without a rollback in between", i->id, (unsigned long long)idx);
    if (idx <= i->applied)
        i->w->violate("C08", "pre-after-commit", "server %d pre-committed index %llu after applying it", i->id, (unsigned long long)idx);
    i->w->mon_cookie(i, idx, s, cookie, "pre-commit");
    i->pre[idx] = s;
}
void mem_sm::rollback(const ulong idx, buffer& data, const uptr<log_entry_cookie>& cookie)
{
    inc* i = i_;
    if (!i->alive) return;
    std::string s = sm_read(i, data, "C08", "rollback", idx, false);
    i->w->note("S%d rollback %llu '%s'", i->id, (unsigned long long)idx, brief(s).c_str());
    i->w->n_rollbacks++;
    if (idx <= i->applied)
        i->w->violate("C08", "rollback-committed", "server %d rolled back index %llu which it has applied", i->id, (unsigned long long)idx);
    i->w->mon_cookie(i, idx, s, cookie, "rollback");
    i->rolled.insert({idx, s});
}
void mem_sm::save_snapshot_data(snapshot& s, const ulong offset, buffer& data)
{
    inc* i = i_;
    if (!i->alive) return;
    std::string b = buf_bytes(data, false);
    i->w->note("S%d save_snapshot_data idx=%llu size=%llu off=%llu len=%zu", i->id, (unsigned long long)s.get_last_log_idx(), (unsigned long long)s.size(), (unsigned long long)offset, b.size());
    i->w->n_snap_blocks++;
    i->d.rx_idx = s.get_last_log_idx();
    disk::rx_t& rx = i->d.rx[{s.get_last_log_idx(), s.get_last_log_term(), s.size()}];
    if (rx.have.empty())
    {
        rx.bytes.assign(s.size(), '\0');
        rx.have.assign(s.size(), false);
    }
    if (offset + b.size() > s.size())
    {
        i->w->violate("C10", "block-range", "server %d got snapshot bytes [%llu,%llu) of a snapshot of %llu bytes", i->id, (unsigned long long)offset, (unsigned long long)(offset + b.size()), (unsigned long long)s.size());
        return;
    }
    for (size_t k = 0; k < b.size(); ++k)
    {
        rx.bytes[offset + k] = b[k];
        rx.have[offset + k] = true;
    }
}
bool mem_sm::apply_snapshot(snapshot& s)
{
    inc* i = i_;
    world* w = i->w;
    if (!i->alive) return true;
    w->storage_op(i, true);
    ulong idx = s.get_last_log_idx();
    w->note("S%d apply_snapshot idx=%llu term=%llu", i->id, (unsigned long long)idx, (unsigned long long)s.get_last_log_term());
    w->n_snap_installed++;
    disk::rx_t& rx = i->d.rx[{idx, s.get_last_log_term(), s.size()}];
    bool complete = rx.bytes.size() == s.size();
    for (bool h : rx.have) complete = complete && h;
    if (!complete)
        w->violate("C10", "incomplete", "server %d is asked to apply the snapshot at %llu before receiving all of its %llu bytes", i->id, (unsigned long long)idx, (unsigned long long)s.size());
    bool known = false;
    for (auto& k : w->snaps_)
        if (k.first.first == idx && k.second == rx.bytes) known = true;
    if (!known)
        w->violate("C10", "bytes", "server %d applies a snapshot at %llu whose %zu bytes equal no snapshot any server created at that index", i->id, (unsigned long long)idx, rx.bytes.size());
    sm_state st;
    if (!world::snap_decode(rx.bytes, st))
        w->violate("C10", "decode", "server %d applies a snapshot at %llu that is not a valid snapshot image", i->id, (unsigned long long)idx);
    else
    {
        std::map<ulong, std::string> m(st.begin(), st.end());
        for (auto& a : w->applied_)
            if (a.first <= idx && (!m.count(a.first) || m[a.first] != a.second))
            {
                w->violate("C10", "content", "snapshot at %llu applied by server %d lacks or differs in the command applied at %llu", (unsigned long long)idx, i->id, (unsigned long long)a.first);
                w->violate("C02", "snapshot-content", "snapshot at %llu applied by server %d lacks or differs in the command applied at %llu", (unsigned long long)idx, i->id, (unsigned long long)a.first);
                break;
            }
    }
    auto it = w->ents_.find({idx, s.get_last_log_term()});
    if (it == w->ents_.end())
        w->violate("C10", "id", "server %d applies a snapshot for (index %llu, term %llu), which is no log entry of any server", i->id, (unsigned long long)idx, (unsigned long long)s.get_last_log_term());
    if (idx <= i->applied)
        w->violate("C10", "backwards", "server %d applies a snapshot at %llu although it already applied index %llu", i->id, (unsigned long long)idx, (unsigned long long)i->applied);
    i->d.sm = st;
    i->d.sm_idx = idx;
    i->d.has_snap = true;
    i->d.snap = snap_rec{idx, s.get_last_log_term(), conf_bytes(*s.get_last_config()), rx.bytes};
    i->snaps[idx] = i->d.snap;
    i->applied = std::max<ulong>(i->applied, idx);
    i->inst_idx = idx;
    i->snap_base = idx;
    i->pre.erase(i->pre.begin(), i->pre.upper_bound(idx));
    // pieces of a later snapshot may already be here, this one may have been duplicated or late
    for (auto it = i->d.rx.begin(); it != i->d.rx.end();) it = it->first[0] <= idx ? i->d.rx.erase(it) : std::next(it);
    w->storage_op(i, false);
    return true;
}
int mem_sm::read_snapshot_data(snapshot& s, const ulong offset, buffer& data)
{
    inc* i = i_;
    auto it = i->snaps.find(s.get_last_log_idx());
    if (it == i->snaps.end())
    {
        i->w->violate("C10", "read-unknown", "server %d reads a snapshot at %llu it does not have", i->id, (unsigned long long)s.get_last_log_idx());
        return -1;
    }
    const std::string& b = it->second.data;
    size_t n = data.size() - data.pos();
    i->w->n_snap_sent++;
    if (offset + n > b.size())
    {
        i->w->violate("C10", "read-range", "server %d reads snapshot bytes [%llu,%llu) of %zu", i->id, (unsigned long long)offset, (unsigned long long)(offset + n), b.size());
        return 0;
    }
    memcpy(data.data(), b.data() + offset, n);
    return (int)n;
}
ptr<snapshot> mem_sm::last_snapshot()
{
    if (!i_->d.has_snap) return ptr<snapshot>();
    return cs_new<snapshot>(i_->d.snap.idx, i_->d.snap.term, conf_parse(i_->d.snap.conf), i_->d.snap.data.size());
}
ulong mem_sm::last_commit_index() { return i_->d.sm_idx; }
void mem_sm::create_snapshot(snapshot& s, async_result<bool>::handler_type& when_done)
{
    inc* i = i_;
    world* w = i->w;
    if (!i->alive) return;
    ulong idx = s.get_last_log_idx();
    w->note("S%d create_snapshot idx=%llu", i->id, (unsigned long long)idx);
    if (i->snap_pending)
        w->violate("C11", "overlap", "server %d asks for a snapshot at %llu while one at %llu is still being made", i->id, (unsigned long long)idx, (unsigned long long)i->snap_new.idx);
    if (i->applied > idx)
        w->violate("C11", "snapshot-behind", "server %d asks for a snapshot at %llu although index %llu is already applied", i->id, (unsigned long long)idx, (unsigned long long)i->applied);
    for (ulong k = i->applied + 1; k <= idx; ++k)
    {
        const entry* e = i->d.at(k);
        if (!e || e->type == log_val_type::app_log)
        {
            w->violate("C11", "snapshot-ahead", "server %d asks for a snapshot at %llu although index %llu is not applied yet", i->id, (unsigned long long)idx, (unsigned long long)k);
            break;
        }
    }
    const entry* e = i->d.at(idx);
    if (e && e->term != s.get_last_log_term())
        w->violate("C11", "snapshot-term", "server %d labels its snapshot at %llu with term %llu, the entry has term %llu", i->id, (unsigned long long)idx, (unsigned long long)s.get_last_log_term(), (unsigned long long)e->term);
    if (idx < i->snap_base + (ulong)w->p_.snap_dist)
        w->violate("C11", "snapshot-distance", "server %d asks for a snapshot at %llu, only %llu after the last one (distance %d)", i->id, (unsigned long long)idx, (unsigned long long)(idx - i->snap_base), w->p_.snap_dist);
    // configuration in force at idx
    {
        std::set<int> want;
        bool have = false;
        for (ulong k = idx; k >= i->d.start && k > 0; --k)
        {
            const entry* x = i->d.at(k);
            if (x && x->type == log_val_type::conf)
            {
                want = conf_ids(x->data);
                have = true;
                break;
            }
        }
        if (!have && i->d.has_snap && i->d.snap.idx <= idx)
        {
            want = conf_ids(i->d.snap.conf);
            have = true;
        }
        if (have && s.get_last_config() && conf_ids(conf_bytes(*s.get_last_config())) != want)
            w->violate("C11", "snapshot-config", "server %d puts members %s into the snapshot at %llu, in force there is %s", i->id, ids_text(conf_ids(conf_bytes(*s.get_last_config()))).c_str(), (unsigned long long)idx, ids_text(want).c_str());
        if (!s.get_last_config())
            w->violate("C11", "snapshot-config", "server %d asks for a snapshot at %llu without configuration", i->id, (unsigned long long)idx);
    }
    i->applied = std::max<ulong>(i->applied, idx); // only configurations in between
    i->since_free = 0;
    i->snap_try_idx = idx;
    snap_rec r{idx, s.get_last_log_term(), conf_bytes(*s.get_last_config()), ""};
    r.data = w->snap_bytes(i, idx, i->d.sm);
    int how = 0; // 0 ok now, 1 ok later, 2 reject, 3 error, 4 throw, 5 reject later
    if (w->p_.snap_mode == 1)
        how = w->g_.below(3) ? 1 : 0;
    else if (w->p_.snap_mode == 2)
        how = (int)w->g_.below(6);
    if (w->quiet_ && how > 1) how = 0;
    if (how == 4) throw std::runtime_error("snapshot cannot be created now");
    if (how == 2 || how == 3)
    {
        bool ok = how == 3;
        ptr<std::exception> ex;
        if (how == 3) ex = cs_new<std::exception>();
        when_done(ok, ex);
        return;
    }
    if (how == 0)
    {
        w->storage_op(i, true);
        w->snaps_[{idx, i->id}] = r.data;
        i->d.has_snap = true;
        i->d.snap = r;
        i->d.sm_idx = std::max(i->d.sm_idx, idx);
        i->snaps[idx] = r;
        i->snap_ok_idx = idx;
        i->snap_base = idx;
        w->n_snap_created++;
        w->storage_op(i, false);
        bool ok = true;
        ptr<std::exception> ex;
        when_done(ok, ex);
        return;
    }
    i->snap_pending = true;
    i->snap_cb = when_done;
    i->snap_new = r;
    bool ok = how == 1;
    w->at(w->now() + 1000 * (vtime)(1 + w->g_.below(400)), [w, i, r, ok]()
          {
              if (!i->alive || !i->snap_pending) return;
              i->snap_pending = false;
              i->since_free = 0;
              auto cb = i->snap_cb;
              i->snap_cb = nullptr;
              w->guarded(i, "snapshot completion", [&]()
                         {
                             bool res = ok;
                             if (ok && !(i->d.has_snap && i->d.snap.idx >= r.idx))
                             {
                                 w->storage_op(i, true);
                                 w->snaps_[{r.idx, i->id}] = r.data;
                                 i->d.has_snap = true;
                                 i->d.snap = r;
                                 i->d.sm_idx = std::max(i->d.sm_idx, r.idx);
                                 i->snaps[r.idx] = r;
                                 i->snap_ok_idx = r.idx;
                                 i->snap_base = r.idx;
                                 w->n_snap_created++;
                                 w->storage_op(i, false);
                             }
                             else
                                 res = false;
                             ptr<std::exception> ex;
                             cb(res, ex);
                         });
          });
}

// ---------------------------------------------------------------- scheduler, transport, logger, events
void mem_sched::schedule(ptr<delayed_task>& task, int32 ms) { i_->w->timer(i_, task, ms); }
void mem_sched::cancel_impl(ptr<delayed_task>& task)
{
    auto it = i_->timers.find(task.get());
    if (it != i_->timers.end())
    {
        i_->pend.erase(it->second);
        i_->timers.erase(it);
    }
}
void mem_client::send(ptr<req_msg>& req, rpc_handler& when_done) { i_->w->send(i_, dst_, req, when_done); }
ptr<rpc_client> mem_factory::create_client(const std::string& endpoint)
{
    return cs_new<mem_client>(i_, atoi(endpoint.c_str() + 6)); // sim://N
}
static void logline(inc* i, const char* lv, const std::string& l)
{
    i->lines[i->nlines++ % 4] = l;
    if (pbt::verbose()) fprintf(stderr, "%9.3f   S%d.%d %s %s\n", (double)i->w->now() / 1000.0, i->id, i->no, lv, l.c_str());
}
void mem_logger::debug(const std::string& l) { if (pbt::verbose()) logline(i_, "dbg", l); }
void mem_logger::info(const std::string& l) { logline(i_, "inf", l); }
void mem_logger::warn(const std::string& l) { logline(i_, "wrn", l); }
void mem_logger::err(const std::string& l) { logline(i_, "ERR", l); }
void mem_events::on_event(raft_event e)
{
    inc* i = i_;
    if (!i->alive) return;
    if (e == raft_event::become_leader)
    {
        if (i->lead)
            i->w->violate("C29", "leader-twice", "server %d announces to become leader (term %llu) while it is announced as leader of term %llu", i->id, (unsigned long long)i->d.term, (unsigned long long)i->lead_term);
        if (!i->led_terms.insert(i->d.term).second)
            i->w->violate("C29", "leader-again", "server %d announces to become leader of term %llu for the second time", i->id, (unsigned long long)i->d.term);
        i->timed_out = false;
        i->lead = true;
        i->candidate = false;
        i->lead_term = i->d.term;
        i->lead_since = i->w->now();
        i->led_now = true;
        i->last_append_ok.clear();
        i->w->n_elections++;
        i->w->mon_leader(i, i->d.term, "became leader");
        if (i->w->membership_)
        {
            bool ok = false;
            std::string t;
            for (auto& m : i->w->views(i))
            {
                size_t n = 0;
                for (int s : m)
                {
                    auto v = i->w->vote_.find({s, i->d.term});
                    if (s == i->id || (v != i->w->vote_.end() && v->second == i->id)) ++n;
                }
                // a server that is not a member counts itself as one
                size_t all = m.size() + (m.count(i->id) ? 0 : 1);
                if (!m.count(i->id)) ++n;
                ok = ok || n > all / 2;
                t += " " + std::to_string(n) + " of " + ids_text(m);
            }
            if (!ok)
                i->w->violate("C13", "elected-by-non-members", "server %d leads term %llu without the votes of a majority of the members:%s", i->id, (unsigned long long)i->d.term, t.c_str());
        }
    }
    else if (e == raft_event::become_follower)
    {
        if (i->lead) i->timed_out = false;
        i->lead = false;
        i->candidate = false;
    }
    else if (e == raft_event::logs_catch_up)
    {
        i->w->n_catch_up++;
        i->idle_told = true;
        for (ulong k = i->applied + 1; k <= i->known_commit && k < i->d.next(); ++k)
        {
            const entry* x = i->d.at(k);
            if (x && x->type == log_val_type::app_log)
            {
                i->w->violate("C29", "catch-up-early", "server %d announces that it caught up, the command at index %llu is not applied although it knows that indexes up to %llu are committed", i->id, (unsigned long long)k, (unsigned long long)i->known_commit);
                break;
            }
        }
        if (coop::self() && i->w->p_.fine && i->w->g_.chance(1, 4)) coop::pause();
    }
}

// ---------------------------------------------------------------- world
static int64_t vbase_ns = 0;
static world* g_world;
static pbt::rng* g_rd;
world::world(pbt::Case& c, const char* prop, const params& p) : c_(c), prop_(prop), p_(p), g_(1)
{
    g_world = this;
    static pbt::rng rd(0);
    rd = pbt::rng(c.seed32());
    g_rd = &rd;
    coop::enable();
    coop::random_value = []() -> uint32_t { return (uint32_t)g_rd->next(); };
    coop::on_deadlock = [this](const char* what)
    {
        if (cur_ && !cur_->alive)
        {
            // its committing thread ended the process during this call
            c_.label("exit during a call");
            c_.rec()->status = pbt::st_ok;
            _exit(0);
        }
        violate("C27", "deadlock", "a call into the library blocks forever in %s", what);
        violate("C12", "deadlock", "a call into the library blocks forever in %s", what);
        violate("C09", "deadlock", "a call into the library blocks forever in %s", what);
        c_.label("deadlock");
        c_.rec()->status = pbt::st_ok;
        _exit(0);
    };
    vbase_ns = 1700000000ll * 1000000000ll + (int64_t)(g_rd->next() % 400000000ull) * 1000000000ll;
    coop::vnow_ns = vbase_ns;
    ptr<cluster_config> conf = cs_new<cluster_config>();
    for (int i = 1; i <= p.n; ++i) conf->get_servers().push_back(cs_new<srv_config>(i, "sim://" + std::to_string(i)));
    std::string cb = conf_bytes(*conf);
    membership_ = p.spare > 0;
    for (int i = 1; i <= p.n + p.spare; ++i)
    {
        disks_[i].conf = cb;
        ids_.insert(i);
        if (i <= p.n) prov_.insert(i);
        for (int k = 1; k <= p.n + p.spare; ++k) links_[i][k] = l_open;
    }
}

void world::note(const char* fmt, ...)
{
    if (!pbt::verbose()) return;
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    fprintf(stderr, "%9.3f %s\n", (double)now_ / 1000.0, b);
}
void world::op(const char* fmt, ...)
{
    char b[300];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (!ops_.empty()) ops_ += "; ";
    ops_ += b;
    c_.sample(ops_);
    if (pbt::verbose()) fprintf(stderr, "%9.3f >>> %s\n", (double)now_ / 1000.0, b);
}
void world::violate(const char* prop, const char* key, const char* fmt, ...)
{
    char b[1200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (c_.rec()->status == pbt::st_discard) return;
    static const std::set<std::string> safety{"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C10", "C11"};
    bool mine = target(prop) || (prop_ == "C13" && safety.count(prop));
    if (mine && forced_lag_)
    {
        // a known finding of C13
        if (prop_ != "C13")
        {
            c_.discard();
            return;
        }
        key = "two-server-removal";
    }
    std::string full = prop_ == "ALL" ? std::string(prop) + "-" + key : key;
    if (mine)
        c_.fail(full.c_str(), "%s\n  at virtual time %.3f ms; n=%d prevote=%d defensive=%d max_append=%d snapshot distance=%d reserved=%d block=%d; history: %s", b,
                (double)now_ / 1000.0, p_.n, p_.prevote, p_.defensive, p_.max_append, p_.snap_dist, p_.reserved, p_.block, ops_.c_str());
    char l[56];
    snprintf(l, sizeof l, "other:%s:%s", prop, key);
    c_.label(l);
    if (pbt::verbose()) fprintf(stderr, "%9.3f !!! %s %s: %s\n", (double)now_ / 1000.0, prop, key, b);
}

void world::at(vtime t, std::function<void()> f) { q_[ev{std::max(t, now_), ++seq_}] = std::move(f); }

void world::boot_all()
{
    for (int i = 1; i <= p_.n; ++i) start(i);
}

void world::start(int id)
{
    if (live_.count(id) || removed_.count(id) || lost_.count(id) || !prov_.count(id)) return;
    inc* i = new inc; // never freed: zombies may still refer to it
    i->w = this;
    i->id = id;
    i->no = ++inc_no_[id];
    i->d = disks_[id];
    if (i->no > 1) n_restarts++;
    if (!p_.sm_durable && i->no > 1)
    {
        i->d.sm.clear();
        i->d.sm_idx = 0;
        if (i->d.has_snap)
        {
            snap_decode(i->d.snap.data, i->d.sm);
            i->d.sm_idx = i->d.snap.idx;
        }
    }
    if (i->d.has_snap)
    {
        i->snaps[i->d.snap.idx] = i->d.snap;
        i->snap_base = i->d.snap.idx;
    }
    i->applied = i->d.sm_idx;
    i->log = cs_new<mem_log>(i);
    i->sm = cs_new<mem_sm>(i);
    all_incs_.push_back(i);
    live_[id] = i;
    raft_params* rp = new raft_params;
    rp->with_election_timeout_lower(p_.el_lo)
        .with_election_timeout_upper(p_.el_hi)
        .with_hb_interval(p_.hb)
        .with_rpc_failure_backoff(p_.backoff)
        .with_max_append_size(p_.max_append)
        .with_log_sync_batch_size(p_.sync_batch)
        .with_log_sync_stopping_gap(p_.sync_gap)
        .with_snapshot_enabled(p_.snap_dist)
        .with_snapshot_sync_block_size(p_.block)
        .with_reserved_log_items(p_.reserved)
        .with_prevote_enabled(p_.prevote)
        .with_defensive_prevote(p_.defensive);
    note("S%d start (run %d): log [%llu,%llu) applied %llu term %llu", id, i->no, (unsigned long long)i->d.start, (unsigned long long)i->d.next(), (unsigned long long)i->applied, (unsigned long long)i->d.term);
    ptr<state_mgr> mgr = cs_new<mem_mgr>(i);
    ptr<state_machine> sm = i->sm;
    ptr<rpc_listener> lis;
    ptr<logger> lg = cs_new<mem_logger>(i);
    ptr<rpc_client_factory> fac = cs_new<mem_factory>(i);
    ptr<delayed_task_scheduler> sch = cs_new<mem_sched>(i);
    ptr<raft_event_listener> evl = cs_new<mem_events>(i);
    context* ctx = new context(mgr, sm, lis, lg, fac, sch, evl, rp);
    size_t nthr = coop::threads().size();
    coop::new_owner = i;
    guarded(i, "constructor", [&]() { i->rs = new raft_server(ctx); });
    for (size_t k = nthr; k < coop::threads().size(); ++k)
        if (coop::threads()[k]->owner == i) i->bg = coop::threads()[k];
    i->constructing = false;
    if (i->alive && i->rs) mon_log_whole(i);
    if (!i->rs && i->alive) kill(i, "constructor failed");
    if (i->alive && i->bg) run_bg(i);
}

void world::kill(inc* i, const char* why)
{
    if (!i->alive) return;
    note("S%d dies (%s)", i->id, why);
    i->alive = false;
    i->pend.clear();
    disks_[i->id] = i->d;
    i->log->left_behind();
    live_.erase(i->id);
    if (membership_ && i->id > p_.n && !joined_.count(i->id)) lost_.insert(i->id); // a server that dies while joining is given up
}
void world::crash(int id)
{
    if (!live_.count(id)) return;
    n_crashes++;
    kill(live_[id], "crash");
}

bool world::storage_op(inc* i, bool before)
{
    if (!i->alive || i->crash_in < 0 || quiet_) return false;
    if (before)
    {
        if (i->crash_in > 0) i->crash_in--;
        if (i->crash_in == 0 && i->crash_before)
        {
            i->crash_in = -1;
            n_crash_op++;
            kill(i, "crash before a storage operation");
            return true;
        }
    }
    else if (i->crash_in == 0)
    {
        i->crash_in = -1;
        n_crash_op++;
        kill(i, "crash after a storage operation");
        return true;
    }
    return false;
}

void world::on_exit(inc* i, int code)
{
    note("S%d system_exit(%d)", i->id, code);
    if (i->alive && !i->leave_ok && !i->exit_ok)
    {
        std::string l;
        for (uint64_t k = i->nlines > 3 ? i->nlines - 3 : 0; k < i->nlines; ++k) l += " | " + i->lines[k % 4];
        violate("C12", "system_exit", "server %d shut itself down (code %d); last log lines:%s", i->id, code, l.c_str());
        if (membership_) violate("C13", "unexpected-exit", "server %d, which was not asked to leave, shut itself down (code %d); last log lines:%s", i->id, code, l.c_str());
    }
    if (i->leave_ok)
    {
        removed_.insert(i->id);
        n_left++;
    }
    kill(i, "system_exit");
}

void world::isolate(const std::set<int>& g)
{
    for (int a : ids_)
        for (int b : ids_)
            if (a != b) links_[a][b] = (g.count(a) != 0) == (g.count(b) != 0) ? l_open : l_cut;
}
void world::heal_links()
{
    for (int a : ids_)
        for (int b : ids_) links_[a][b] = l_open;
}
void world::release_held(uint32_t k, bool all)
{
    if (all)
    {
        while (!held_.empty())
        {
            msg m = held_.front();
            held_.pop_front();
            dispatch(m, 0);
        }
        return;
    }
    if (held_.empty()) return;
    k %= (uint32_t)held_.size();
    msg m = held_[k];
    held_.erase(held_.begin() + k);
    dispatch(m, 0);
}

void world::timer(inc* i, ptr<delayed_task>& t, int32 ms)
{
    if (!i->alive) return;
    bool el = dynamic_cast<timer_task<peer&>*>(t.get()) == nullptr; // (the others are heartbeats)
    n_timers++;
    if (el && !membership_)
    {
        i->el_delays.push_back(ms);
        if (ms < p_.el_lo || ms > p_.el_hi)
            violate("C30", "election-timeout", "server %d waits %d ms for its leader, configured are %d to %d ms", i->id, ms, p_.el_lo, p_.el_hi);
    }
    if (!el && !membership_)
    {
        int most = std::max(p_.hb, p_.el_lo - p_.hb / 2);
        if (ms < p_.hb || ms > most)
            violate("C30", "heartbeat-interval", "server %d schedules a heartbeat in %d ms, the interval is %d ms and at most %d ms while a server does not answer", i->id, ms, p_.hb, most);
        if (ms != p_.hb && i->unanswered.empty())
            violate("C30", "heartbeat-slow", "server %d schedules a heartbeat in %d ms, the interval is %d ms and every server answered its last message", i->id, ms, p_.hb);
        i->call_hb.push_back(ms);
    }
    t->reset();
    auto it = i->timers.find(t.get());
    if (it != i->timers.end()) i->pend.erase(it->second);
    uint64_t no = ++seq_;
    i->timers[t.get()] = no;
    i->pend[no] = t;
    at(now_ + (vtime)ms * 1000, [this, i, no, el]()
       {
           if (!i->alive) return;
           auto p = i->pend.find(no);
           if (p == i->pend.end()) return;
           ptr<delayed_task> t = p->second;
           i->pend.erase(p);
           i->timers.erase(t.get());
           if (el) i->timed_out = true;
           begin_call(i, 0);
           guarded(i, "timer", [&]() { t->execute(); });
           end_call(i);
       });
}

bool world::fire_election(int id)
{
    inc* i = up(id);
    if (!i) return false;
    for (auto& p : i->pend)
        if (!dynamic_cast<timer_task<peer&>*>(p.second.get()))
        {
            ptr<delayed_task> t = p.second;
            i->timers.erase(t.get());
            i->pend.erase(p.first);
            timing_ = false;
            i->timed_out = true;
            begin_call(i, 0);
            guarded(i, "timer", [&]() { t->execute(); });
            end_call(i);
            return true;
        }
    return false;
}

void world::schedule_bg(inc* i)
{
    if (!i->alive || !i->bg || i->bg_event || i->frozen || !coop::can_run(i->bg)) return;
    i->bg_event = true;
    vtime lag = 0;
    if (!quiet_)
    {
        uint32_t r = g_.below(10);
        if (r == 8) lag = 1000 * (vtime)g_.below(20);
        if (r == 9) lag = 1000 * (vtime)g_.below(200);
    }
    at(now_ + lag, [this, i]()
       {
           i->bg_event = false;
           if (i->alive && !i->frozen) run_bg(i);
       });
}
void world::run_bg(inc* i)
{
    if (!i->alive || !i->bg) return;
    if (coop::can_run(i->bg))
    {
        coop::run(i->bg);
    }
}

bool world::step(vtime until)
{
    if (q_.empty() || q_.begin()->first.t > until)
    {
        return false;
    }
    auto it = q_.begin();
    now_ = std::max(now_, it->first.t);
    coop::vnow_ns = vbase_ns + now_ * 1000;
    std::function<void()> f = std::move(it->second);
    q_.erase(it);
    n_events++;
    f();
    for (size_t k = 0; k < ids_.size() + 0u; ++k) {}
    for (auto& p : std::map<int, inc*>(live_)) schedule_bg(p.second);
    return true;
}
void world::run_for(vtime us)
{
    vtime until = now_ + us;
    uint64_t limit = n_events + 60000;
    for (auto& p : std::map<int, inc*>(live_)) schedule_bg(p.second);
    while (step(until))
        if (n_events > limit)
        {
            c_.label("event-limit");
            violate("C09", "event-storm", "more than 60000 events within %.0f ms of virtual time: the servers keep sending without waiting", (double)us / 1000.0);
            break;
        }
    now_ = std::max(now_, until);
    coop::vnow_ns = vbase_ns + now_ * 1000;
}
void world::settle_bg()
{
    for (int k = 0; k < 10000; ++k)
    {
        bool any = false;
        for (auto& p : std::map<int, inc*>(live_))
            if (p.second->bg && coop::can_run(p.second->bg))
            {
                run_bg(p.second);
                any = true;
            }
        if (!any) break;
    }
}

static ptr<req_msg> deep_copy(req_msg& r)
{
    ptr<req_msg> c = cs_new<req_msg>(r.get_term(), r.get_type(), r.get_src(), r.get_dst(), r.get_last_log_term(), r.get_last_log_idx(), r.get_commit_idx());
    for (auto& e : r.log_entries())
    {
        e->get_buf().pos(0); // as the tcp transport does
        c->log_entries().push_back(cs_new<log_entry>(e->get_term(), mkbuf(buf_bytes(e->get_buf(), true)), e->get_val_type()));
    }
    return c;
}

void world::send(inc* from, int dst, ptr<req_msg>& req, rpc_handler& h)
{
    if (!from->alive) return;
    if (!req)
    {
        violate("C12", "null-request", "server %d sends a null request", from->id);
        return;
    }
    n_msgs++;
    int ty = req->get_type();
    if (ty == msg_type::append_entries_request || ty == msg_type::install_snapshot_request)
    {
        bool joiner = ids_.count(dst) && dst > p_.n;
        (void)joiner;
        mon_leader(from, req->get_term(), "sent entries");
        if (req->get_term() != from->d.term)
            violate("C07", "leader-term", "server %d sends entries under term %llu while its persisted term is %llu", from->id, (unsigned long long)req->get_term(), (unsigned long long)from->d.term);
        mon_commit_index(from, req->get_commit_idx(), "announced by the leader");
        from->known_commit = std::max(from->known_commit, req->get_commit_idx());
        from->sent_as_leader = true;
        if (ty == msg_type::append_entries_request)
        {
            if ((int)req->log_entries().size() == p_.max_append) n_full++;
            if ((int)req->log_entries().size() > p_.max_append)
                violate("C30", "append-size", "server %d sends %zu entries at once, configured are at most %d", from->id, req->log_entries().size(), p_.max_append);
        }
        else if (req->log_entries().size() == 1)
        {
            size_t lim = p_.block ? (size_t)p_.block : 4096;
            buffer& b = req->log_entries()[0]->get_buf();
            b.pos(0);
            ptr<snapshot_sync_req> sr = snapshot_sync_req::deserialize(b);
            b.pos(0);
            size_t len = sr->get_data().size();
            if (len == lim) n_full++;
            if (len > lim || len == 0)
                violate("C30", "block-size", "server %d sends %zu bytes of a snapshot at once, configured are %zu", from->id, len, lim);
            if (from->read_failed)
                violate("C10", "unread-sent", "server %d sends snapshot bytes that its state machine failed to read", from->id);
        }
    }
    else if (ty == msg_type::sync_log_request || ty == msg_type::join_cluster_request || ty == msg_type::leave_cluster_request)
        mon_commit_index(from, req->get_commit_idx(), "announced by the leader");
    else if (ty == msg_type::vote_request)
    {
        if (from->d.term != req->get_term() || from->d.voted != from->id)
            violate("C07", "self-vote-not-persisted", "server %d asks for votes in term %llu while its persisted state is term %llu, vote %d", from->id, (unsigned long long)req->get_term(), (unsigned long long)from->d.term, from->d.voted);
        auto v = vote_.find({from->id, req->get_term()});
        if (v != vote_.end() && v->second != from->id)
            violate("C07", "double-vote", "server %d votes for itself in term %llu after voting for %d", from->id, (unsigned long long)req->get_term(), v->second);
        vote_[{from->id, req->get_term()}] = from->id;
        if (p_.prevote && !from->candidate && !membership_)
        {
            size_t k = from->prevotes[req->get_term() - 1].size() + 1;
            if ((int)k < majority())
                violate("C14", "election-without-prevote", "follower %d starts an election for term %llu with only %zu of %d prevotes (its own included) granted in term %llu", from->id, (unsigned long long)req->get_term(), k, p_.n, (unsigned long long)req->get_term() - 1);
        }
        from->candidate = true;
        from->cand_term = req->get_term();
    }
    msg m;
    m.id = ++msg_id_;
    m.src = from->id;
    m.dst = dst;
    m.from = from;
    m.orig = req;
    m.req = deep_copy(*req);
    m.h = h;
    bool cli = ty == msg_type::client_request || ty == msg_type::add_server_request || ty == msg_type::remove_server_request;
    note("send #%llu S%d->S%d type %d term %llu prev (%llu,%llu) commit %llu entries %zu", (unsigned long long)m.id, m.src, dst, ty, (unsigned long long)req->get_term(), (unsigned long long)req->get_last_log_idx(), (unsigned long long)req->get_last_log_term(), (unsigned long long)req->get_commit_idx(), req->log_entries().size());
    int delay = net_.dmin + (int)g_.below((uint32_t)std::max(1, net_.dmax - net_.dmin));
    if ((int)g_.below(100) < net_.drop)
    {
        n_drops++;
        m.err = true;
        m.is_resp = true;
        dispatch(m, delay + 5000 + (int)g_.below(20000));
        return;
    }
    if (!cli && (int)g_.below(100) < net_.dup)
    {
        msg d = m;
        d.dup = true;
        d.req = deep_copy(*req);
        n_dups++;
        dispatch(d, delay + (int)g_.below((uint32_t)(net_.dmax * 8 + 1)));
    }
    if ((int)g_.below(100) < net_.hold)
    {
        n_held++;
        held_.push_back(m);
        return;
    }
    dispatch(m, delay);
}

void world::dispatch(msg m, int delay)
{
    at(now_ + delay, [this, m]() { deliver(m); });
}

void world::respond(msg m, ptr<resp_msg> resp, bool err)
{
    if (m.dup) return;
    m.is_resp = true;
    m.resp = resp;
    m.err = err;
    int delay = net_.dmin + (int)g_.below((uint32_t)std::max(1, net_.dmax - net_.dmin));
    if (!err && (int)g_.below(100) < net_.rdrop)
    {
        n_drops++;
        m.err = true;
        m.resp.reset();
        delay += 5000 + (int)g_.below(20000);
    }
    else if (!err && (int)g_.below(100) < net_.hold)
    {
        n_held++;
        held_.push_back(m);
        return;
    }
    dispatch(m, delay);
}

void world::deliver(msg m)
{
    if (m.is_resp)
    {
        inc* i = m.from;
        if (!i->alive) return;
        link_t l = links_[m.dst][m.src];
        if (!m.err && l == l_hold)
        {
            held_.push_back(m);
            return;
        }
        bool err = m.err || l == l_cut;
        begin_call(i, 0);
        int qt = m.req->get_type();
        if (qt == msg_type::vote_request || qt == msg_type::prevote_request || qt == msg_type::append_entries_request || qt == msg_type::install_snapshot_request)
        {
            if (err)
                i->unanswered.insert(m.dst);
            else
                i->unanswered.erase(m.dst);
        }
        if (err)
        {
            ptr<resp_msg> none;
            ptr<rpc_exception> ex = cs_new<rpc_exception>("message lost", m.orig);
            guarded(i, "rpc error handler", [&]() { m.h(none, ex); });
        }
        else
        {
            int rt = m.resp->get_type();
            if (m.req->get_type() == msg_type::vote_request || m.req->get_type() == msg_type::append_entries_request || m.req->get_type() == msg_type::install_snapshot_request)
            {
                i->last_resp[m.dst] = now_;
                if (m.req->get_type() == msg_type::append_entries_request && m.resp->get_term() == i->d.term && m.req->get_term() == i->d.term && i->lead) i->last_append_ok[m.dst] = now_;
            }
            if (rt == msg_type::prevote_response && m.resp->get_accepted()) i->prevotes[m.req->get_term()].insert(m.dst);
            ptr<rpc_exception> none;
            ptr<resp_msg> resp = m.resp;
            guarded(i, "response handler", [&]() { m.h(resp, none); });
        }
        end_call(i);
        return;
    }
    link_t l = links_[m.src][m.dst];
    if (l == l_hold)
    {
        held_.push_back(m);
        return;
    }
    inc* i = up(m.dst);
    if (l == l_cut || !i)
    {
        respond(m, nullptr, true);
        return;
    }
    int ty = m.req->get_type();
    if (ty == msg_type::append_entries_request || ty == msg_type::install_snapshot_request)
    {
        gap_[i->id] = std::max(gap_[i->id], now_ - heard_[i->id]);
        heard_[i->id] = now_;
        if (m.req->get_term() >= i->d.term) i->timed_out = false;
    }
    if (membership_ && ty == msg_type::join_cluster_request && was_member(i->id) && !agreed().count(i->id))
    {
        // a late request brings back a server that was removed meanwhile (only new servers may join)
        c_.discard();
        return;
    }
    ulong t0 = i->d.term;
    int v0 = i->d.voted;
    bool lead0 = i->lead;
    ulong next0 = i->d.next();
    ulong own_lt = 0;
    bool own_known = i->d.last_term(own_lt);
    ulong own_li = i->d.next() - 1;
    begin_call(i, ty);
    ptr<resp_msg> resp;
    guarded(i, "process_req", [&]() { resp = i->rs->process_req(*m.req); });
    if (i->alive && resp)
    {
        note("S%d answers #%llu: accepted %d term %llu next %llu", i->id, (unsigned long long)m.id, resp->get_accepted(), (unsigned long long)resp->get_term(), (unsigned long long)resp->get_next_idx());
        if (ty == msg_type::leave_cluster_request && resp->get_accepted()) i->leave_ok = true;
        if (resp->get_term() > i->d.term)
            violate("C07", "term-not-persisted", "server %d answers under term %llu, persisted is term %llu", i->id, (unsigned long long)resp->get_term(), (unsigned long long)i->d.term);
        if (ty == msg_type::vote_request && resp->get_accepted())
        {
            n_votes++;
            int cand = m.req->get_src();
            ulong rt = m.req->get_term();
            if (rt < t0)
                violate("C07", "stale-vote", "server %d grants a vote for term %llu while in term %llu", i->id, (unsigned long long)rt, (unsigned long long)t0);
            if (i->d.term != rt || i->d.voted != cand)
                violate("C07", "vote-not-persisted", "server %d grants its vote in term %llu to %d, persisted is term %llu vote %d", i->id, (unsigned long long)rt, cand, (unsigned long long)i->d.term, i->d.voted);
            auto v = vote_.find({i->id, rt});
            if (v != vote_.end() && v->second != cand)
                violate("C07", "double-vote", "server %d grants its vote in term %llu to %d after voting for %d", i->id, (unsigned long long)rt, cand, v->second);
            vote_[{i->id, rt}] = cand;
            ulong clt = m.req->get_last_log_term(), cli = m.req->get_last_log_idx();
            if (own_known && (clt < own_lt || (clt == own_lt && cli < own_li)))
                violate("C07", "outdated-candidate", "server %d (last entry %llu of term %llu) votes for %d whose last entry is %llu of term %llu", i->id, (unsigned long long)own_li, (unsigned long long)own_lt, cand, (unsigned long long)cli, (unsigned long long)clt);
        }
        if (ty == msg_type::vote_request && !resp->get_accepted() && own_known && !membership_)
        {
            ulong rt = m.req->get_term(), clt = m.req->get_last_log_term(), cli = m.req->get_last_log_idx();
            bool free = rt > t0 || (rt == t0 && (v0 == -1 || v0 == m.req->get_src()));
            if (free && (clt > own_lt || (clt == own_lt && cli >= own_li)))
                violate("C09", "vote-refused", "server %d (term %llu, vote %d, last entry %llu of term %llu) refuses its vote of term %llu to %d whose last entry is %llu of term %llu", i->id, (unsigned long long)t0, v0, (unsigned long long)own_li, (unsigned long long)own_lt, (unsigned long long)rt, m.req->get_src(), (unsigned long long)cli, (unsigned long long)clt);
        }
        if (ty == msg_type::prevote_request)
        {
            n_pv_req++;
            if (i->d.term != t0 || i->d.voted != v0 || i->lead != lead0)
                violate("C14", "prevote-changes-state", "handling a prevote request changed server %d from term %llu vote %d leader %d to term %llu vote %d leader %d", i->id, (unsigned long long)t0, v0, lead0, (unsigned long long)i->d.term, i->d.voted, i->lead);
            if (resp->get_accepted())
            {
                ulong clt = m.req->get_last_log_term(), cli = m.req->get_last_log_idx();
                if (p_.defensive && !membership_ && !i->timed_out)
                    violate("C14", "prevote-defensive", "server %d grants a prevote to %d although it did not wait in vain for its leader (its election timer did not fire since it heard from the leader, started or led itself)", i->id, m.req->get_src());
                if (m.req->get_term() < t0)
                    violate("C14", "prevote-old-term", "server %d in term %llu grants a prevote for term %llu", i->id, (unsigned long long)t0, (unsigned long long)m.req->get_term());
                if (own_known && (clt < own_lt || (clt == own_lt && cli < own_li)))
                    violate("C14", "prevote-outdated", "server %d (last entry %llu of term %llu) grants a prevote to %d whose last entry is %llu of term %llu", i->id, (unsigned long long)own_li, (unsigned long long)own_lt, m.req->get_src(), (unsigned long long)cli, (unsigned long long)clt);
            }
        }
        if (ty == msg_type::append_entries_request && resp->get_accepted())
        {
            i->known_leader = m.req->get_src();
            i->known_term = m.req->get_term();
            if (resp->get_next_idx() > 0) i->known_commit = std::max(i->known_commit, std::min(m.req->get_commit_idx(), resp->get_next_idx() - 1));
            if (m.req->get_term() < t0)
                violate("C04", "stale-append", "server %d in term %llu accepts entries of term %llu", i->id, (unsigned long long)t0, (unsigned long long)m.req->get_term());
            if (resp->get_next_idx() > i->d.next())
                violate("C06", "ack-too-much", "server %d acknowledges entries below %llu, its log ends at %llu", i->id, (unsigned long long)resp->get_next_idx(), (unsigned long long)i->d.next());
        }
        if ((ty == msg_type::append_entries_request) && !resp->get_accepted() && i->d.next() != next0)
            violate("C04", "rejected-but-changed", "server %d rejects entries but its log end moves from %llu to %llu", i->id, (unsigned long long)next0, (unsigned long long)i->d.next());
    }
    end_call(i);
    if (!i->alive || !resp)
        respond(m, nullptr, true);
    else
        respond(m, resp, false);
}

void world::begin_call(inc* i, int type)
{
    i->in_req = type;
    i->sent_as_leader = false;
    i->led_now = false;
    i->call_hb.clear();
    i->read_failed = false;
    i->dropped.clear();
    i->dropped_opt.clear();
    i->rolled.clear();
    i->rolled_cookies.clear();
}
void world::end_call(inc* i)
{
    if (i->alive)
    {
        if (i->dropped.size() + i->dropped_opt.size() > 1) n_multi_over++;
        auto rolled = i->rolled;
        for (auto& x : i->dropped)
        {
            bool hit = false;
            for (auto it = rolled.begin(); it != rolled.end(); ++it)
                if (it->first == x.first && it->second == x.second)
                {
                    rolled.erase(it);
                    hit = true;
                    break;
                }
            if (!hit)
                violate("C08", "no-rollback", "server %d dropped the uncommitted entry at index %llu ('%s') without a rollback", i->id, (unsigned long long)x.first, brief(x.second).c_str());
        }
        for (auto& x : i->dropped_opt)
            for (auto it = rolled.begin(); it != rolled.end(); ++it)
                if (it->first == x.first && it->second == x.second)
                {
                    rolled.erase(it);
                    break;
                }
        for (auto& x : rolled)
            violate("C08", "extra-rollback", "server %d rolled back index %llu ('%s'), which it did not drop (or rolled it back twice)", i->id, (unsigned long long)x.first, brief(x.second).c_str());
        if (i->sent_as_leader && !i->led_terms.count(i->d.term) && leader_of_.count(i->d.term))
            violate("C29", "leader-silent", "server %d sends entries as leader of term %llu and did not announce that it became leader", i->id, (unsigned long long)i->d.term);
        for (int ms : i->call_hb)
            if (i->led_now && ms != p_.hb)
                violate("C30", "heartbeat-first", "server %d becomes leader and schedules its first heartbeat in %d ms, the interval is %d ms", i->id, ms, p_.hb);
        if (i->lead && i->lead_term != i->d.term)
            violate("C29", "follower-silent", "server %d, announced as leader of term %llu, is in term %llu and did not announce that it became follower", i->id, (unsigned long long)i->lead_term, (unsigned long long)i->d.term);
        if (i->in_req == msg_type::install_snapshot_request) mon_log_whole(i);
    }
    i->in_req = 0;
    i->dropped.clear();
    i->dropped_opt.clear();
    i->rolled.clear();
}

// ---------------------------------------------------------------- monitors
void world::mon_leader(inc* i, ulong term, const char* how)
{
    auto it = leader_of_.find(term);
    if (it != leader_of_.end())
    {
        if (it->second != i->id)
            violate("C01", "two-leaders", "servers %d and %d both act as leader of term %llu (%s)", it->second, i->id, (unsigned long long)term, how);
        return;
    }
    leader_of_[term] = i->id;
    for (auto& c : committed_)
    {
        if (c.second.cterm >= term) continue;
        if (c.first < i->d.start) continue;
        const entry* e = i->d.at(c.first);
        if (!e || e->term != c.second.term || e->data != c.second.data)
        {
            violate("C03", "leader-lacks-committed", "server %d leads term %llu but %s the entry at index %llu (term %llu) that was committed in term %llu", i->id, (unsigned long long)term, e ? "has another entry instead of" : "lacks", (unsigned long long)c.first, (unsigned long long)c.second.term, (unsigned long long)c.second.cterm);
            break;
        }
    }
}

int world::stored_on(ulong idx, const entry& e)
{
    int n = 0;
    for (int id = 1; id <= p_.n; ++id)
    {
        const disk& d = disk_of(id);
        const entry* x = d.at(idx);
        if (x ? (*x == e) : idx < d.start) ++n;
    }
    return n;
}

void world::mon_commit_index(inc* i, ulong c, const char* how)
{
    if (!i->alive) return;
    if (c >= i->d.next())
    {
        violate("C06", "commit-beyond-log", "server %d announces commit index %llu but its log ends at %llu (%s)", i->id, (unsigned long long)c, (unsigned long long)i->d.next() - 1, how);
        return;
    }
    for (ulong k = max_committed_ + 1; k <= c; ++k)
    {
        const entry* e = i->d.at(k);
        if (!e) continue; // compacted
        if (!membership_)
        {
            int n = stored_on(k, *e);
            if (n < majority())
                violate("C06", "no-majority", "index %llu (term %llu) counts as committed (%s, server %d) while only %d of %d servers store it", (unsigned long long)k, (unsigned long long)e->term, how, i->id, n, p_.n);
        }
        else
        {
            bool ok = false;
            std::string t;
            for (auto& m : views(i))
            {
                size_t n = 0;
                for (int s : m)
                {
                    const disk& d = disk_of(s);
                    const entry* x = d.at(k);
                    if (x ? *x == *e : k < d.start) ++n;
                }
                ok = ok || n > m.size() / 2;
                t += " " + std::to_string(n) + " of " + ids_text(m);
            }
            if (!ok)
                violate(prop_ == "C06" ? "C06" : "C13", "committed-by-non-members", "index %llu (term %llu) counts as committed (%s, server %d) without being stored by a majority of the members:%s", (unsigned long long)k, (unsigned long long)e->term, how, i->id, t.c_str());
        }
        committed_[k] = committed_rec{e->term, e->type, e->data, i->d.term};
        if (e->type == log_val_type::conf) confs_[k] = e->data;
    }
    max_committed_ = std::max(max_committed_, c);
}

void world::mon_applied(inc* i, ulong idx, const std::string& data, const char* how)
{
    auto it = applied_.find(idx);
    if (it == applied_.end())
        applied_[idx] = data;
    else if (it->second != data)
        violate("C02", "divergent-apply", "server %d applies '%s' at index %llu where '%s' was applied before (%s)", i->id, brief(data).c_str(), (unsigned long long)idx, brief(it->second).c_str(), how);
    auto ci = cmd_idx_.find(data);
    if (ci == cmd_idx_.end())
        cmd_idx_[data] = idx;
    else if (ci->second != idx)
        violate("C05", "applied-twice", "the command '%s' submitted once is applied at index %llu and at index %llu", brief(data).c_str(), (unsigned long long)ci->second, (unsigned long long)idx);
    if (!submitted_.count(data))
        violate("C05", "invented", "server %d applies '%s' at index %llu, which no client submitted", i->id, brief(data).c_str(), (unsigned long long)idx);
    if (idx > max_committed_)
        mon_commit_index(i, idx, "applied");
    else
    {
        auto c = committed_.find(idx);
        if (c != committed_.end() && c->second.data != data)
            violate("C03", "applied-other", "server %d applies '%s' at index %llu, committed there was '%s'", i->id, brief(data).c_str(), (unsigned long long)idx, brief(c->second.data).c_str());
    }
}

void world::mon_log_write(inc* i, ulong idx, const entry& e)
{
    if (!i->alive) return;
    const entry* prev = i->d.at(idx - 1);
    bool pk = prev != nullptr || idx == 1;
    ulong pt = prev ? prev->term : 0;
    if (!pk && i->d.has_snap && i->d.snap.idx == idx - 1)
    {
        pt = i->d.snap.term;
        pk = true;
    }
    if (i->in_req == msg_type::install_snapshot_request || i->constructing)
    {
        i->origin[idx] = 0; // judged when the request is done
        return;
    }
    note("S%d log[%llu] = term %llu type %d '%s'", i->id, (unsigned long long)idx, (unsigned long long)e.term, e.type, e.type == log_val_type::app_log ? brief(e.data).c_str() : "");
    if (pk && e.term < pt)
        violate("C04", "term-order", "server %d stores term %llu at index %llu after term %llu", i->id, (unsigned long long)e.term, (unsigned long long)idx, (unsigned long long)pt);
    if (e.term > i->d.term)
        violate("C04", "term-ahead", "server %d in term %llu stores an entry of term %llu at index %llu", i->id, (unsigned long long)i->d.term, (unsigned long long)e.term, (unsigned long long)idx);
    auto key = std::make_pair(idx, e.term);
    auto it = ents_.find(key);
    if (it == ents_.end())
        ents_[key] = {e, pk ? pt : (ulong)-1};
    else
    {
        if (!(it->second.first == e))
            violate("C04", "log-mismatch", "server %d stores '%s' (type %d) at index %llu term %llu where another server stored '%s' (type %d)", i->id, brief(e.data).c_str(), e.type, (unsigned long long)idx, (unsigned long long)e.term, brief(it->second.first.data).c_str(), it->second.first.type);
        if (pk && it->second.second == (ulong)-1)
            it->second.second = pt;
        else if (pk && it->second.second != pt)
            violate("C04", "prefix-mismatch", "server %d stores index %llu term %llu after an entry of term %llu, another log has it after term %llu", i->id, (unsigned long long)idx, (unsigned long long)e.term, (unsigned long long)pt, (unsigned long long)it->second.second);
    }
    auto c = committed_.find(idx);
    if (c != committed_.end() && i->d.term > c->second.cterm && !(c->second.term == e.term && c->second.data == e.data))
        violate("C03", "overwrites-committed", "server %d stores another entry (term %llu) at index %llu, where the entry of term %llu is committed", i->id, (unsigned long long)e.term, (unsigned long long)idx, (unsigned long long)c->second.term);
    bool ae = i->in_req == msg_type::append_entries_request || i->in_req == msg_type::client_request;
    i->origin[idx] = ae && e.type == log_val_type::app_log ? 1 : 0;
    if (e.type == log_val_type::conf) n_conf++;
    if (membership_ && e.type == log_val_type::conf && i->in_req != msg_type::append_entries_request && i->in_req != msg_type::sync_log_request) mon_conf_write(i, idx, e);
}

// after a snapshot installation: everything that is left in the log must be consistent with all other logs
void world::mon_log_whole(inc* i)
{
    const disk& d = i->d;
    bool pk = d.has_snap && d.snap.idx == d.start - 1;
    ulong pt = pk ? d.snap.term : 0;
    for (ulong k = d.start; k < d.next(); ++k)
    {
        const entry& e = *d.at(k);
        auto it = ents_.find({k, e.term});
        if (it == ents_.end() || !(it->second.first == e))
        {
            violate("C04", "log-mismatch", "after installing a snapshot, server %d holds at index %llu an entry of term %llu that no leader created", i->id, (unsigned long long)k, (unsigned long long)e.term);
            return;
        }
        if (pk && it->second.second != (ulong)-1 && it->second.second != pt)
        {
            violate("C04", "prefix-mismatch", "after installing a snapshot, server %d holds index %llu term %llu after a position of term %llu, another log has it after term %llu", i->id, (unsigned long long)k, (unsigned long long)e.term, (unsigned long long)pt, (unsigned long long)it->second.second);
            return;
        }
        pt = e.term;
        pk = true;
    }
}

void world::mon_log_drop(inc* i, ulong from, ulong to, ulong except)
{
    if (!i->alive) return;
    n_overwrites++;
    for (ulong k = from; k < to; ++k)
    {
        const entry* e = i->d.at(k);
        if (!e) continue;
        if (k != except)
        {
            auto c = committed_.find(k);
            if (c != committed_.end() && i->d.term >= c->second.cterm && c->second.term == e->term && c->second.data == e->data)
                violate("C03", "drops-committed", "server %d removes the committed entry at index %llu (term %llu) from its log", i->id, (unsigned long long)k, (unsigned long long)e->term);
        }
        if (e->type == log_val_type::app_log)
        {
            if (i->pre.count(k) && k != except && i->in_req == msg_type::append_entries_request)
                i->dropped.insert({k, e->data});
            else
                i->dropped_opt.insert({k, e->data});
        }
        i->pre.erase(k);
        i->origin.erase(k);
    }
    if (i->cookies.empty()) return;
    for (ulong k = from; k < to; ++k)
        if (const entry* e = i->d.at(k))
        {
            auto c = i->cookies.find(e->data);
            if (c == i->cookies.end()) continue;
            if (i->dropped.count(k) || i->dropped_opt.count(k))
                i->rolled_cookies.insert(*c); // its rollback may come later in this call
            i->cookies.erase(c);
        }
}

void world::mon_cookie(inc* i, ulong idx, const std::string& s, const uptr<log_entry_cookie>& c, const char* how)
{
    if (p_.fs) return; // (entries that left the buffer of the store have none)
    auto it = i->cookies.find(s);
    bool want = it != i->cookies.end() && !p_.log_copies;
    if (!want && i->rolled_cookies.count(s)) return;
    if (want) n_cookies++;
    if (want && (!c || c->value().get() != it->second.first || c->tag() != it->second.second))
        violate("C31", "cookie-lost", "%s of index %llu on server %d comes %s", how, (unsigned long long)idx, i->id, c ? "with another cookie than the command was given" : "without the cookie the command was given");
    if (!want && c)
        violate("C31", "cookie-invented", "%s of index %llu on server %d comes with a cookie (tag %u), the command was given none here", how, (unsigned long long)idx, i->id, c->tag());
}

void world::mon_state(inc* i, ulong ot, int ov)
{
    if (i->d.term < ot)
        violate("C07", "term-decreases", "server %d persists term %llu after term %llu", i->id, (unsigned long long)i->d.term, (unsigned long long)ot);
    if (i->d.term == ot && ov != -1 && i->d.voted != ov)
        violate("C07", "vote-changed", "server %d changes its persisted vote of term %llu from %d to %d", i->id, (unsigned long long)ot, ov, i->d.voted);
    if (i->d.term > ot) note("S%d term %llu", i->id, (unsigned long long)i->d.term);
}

void world::mon_compact(inc* i, ulong upto)
{
    if (!i->alive) return;
    n_compacts++;
    note("S%d compact up to %llu", i->id, (unsigned long long)upto);
    if (i->in_req == msg_type::install_snapshot_request && coop::self() != i->bg) // (the apply thread may complete a snapshot of its own meanwhile)
    {
        if (upto > i->d.rx_idx)
            violate("C11", "compact-install", "server %d discards its log up to %llu when installing a snapshot at %llu", i->id, (unsigned long long)upto, (unsigned long long)i->d.rx_idx);
        return;
    }
    ulong s = i->d.has_snap ? i->d.snap.idx : 0;
    // completing an installation that was interrupted
    if (i->constructing && upto == s && (!i->d.at(s) || i->d.at(s)->term != i->d.snap.term)) return;
    if (upto > s)
        violate("C11", "compact-uncovered", "server %d discards its log up to %llu, its snapshot covers only up to %llu", i->id, (unsigned long long)upto, (unsigned long long)s);
    else if (upto + (ulong)p_.reserved > s)
        violate("C11", "compact-reserve", "server %d discards its log up to %llu with a snapshot at %llu: fewer than the %d reserved entries stay", i->id, (unsigned long long)upto, (unsigned long long)s, p_.reserved);
}

std::string world::snap_bytes(inc* i, ulong idx, const sm_state& st)
{
    std::string s = "SNAP" + std::to_string(i->id) + ":" + std::to_string(idx) + "\n";
    for (auto& x : st) s += std::to_string(x.first) + " " + std::to_string(x.second.size()) + " " + x.second + "\n";
    s += "END";
    s.append((size_t)p_.pad, (char)('a' + i->id));
    return s;
}
bool world::snap_decode(const std::string& s, sm_state& st)
{
    st.clear();
    if (s.compare(0, 4, "SNAP") != 0) return false;
    size_t p = s.find('\n');
    if (p == std::string::npos) return false;
    ++p;
    while (p < s.size() && s.compare(p, 3, "END") != 0)
    {
        size_t a = s.find(' ', p);
        if (a == std::string::npos) return false;
        size_t b = s.find(' ', a + 1);
        if (b == std::string::npos) return false;
        ulong idx = strtoull(s.c_str() + p, nullptr, 10);
        size_t n = strtoul(s.c_str() + a, nullptr, 10);
        if (b + 1 + n >= s.size()) return false;
        st.push_back({idx, s.substr(b + 1, n)});
        p = b + 1 + n + 1;
    }
    return p < s.size();
}

// ---------------------------------------------------------------- clients
std::string world::new_cmd(int size)
{
    std::string s = "c" + std::to_string(++cmd_no_) + ":";
    while ((int)s.size() < size) s += (char)(33 + (int)((s.size() * 7 + cmd_no_) % 90));
    submitted_.insert(s);
    return s;
}

bool world::believes_leader(int id)
{
    inc* i = up(id);
    if (!i) return false;
    bool r = false;
    guarded(i, "is_leader", [&]() { r = i->rs->is_leader(); });
    // leadership lease
    if (!membership_)
    {
        int others = majority() - 1;
        std::vector<vtime> any, app;
        for (auto& x : i->last_resp) any.push_back(x.second);
        for (auto& x : i->last_append_ok) app.push_back(x.second);
        std::sort(any.rbegin(), any.rend());
        std::sort(app.rbegin(), app.rend());
        vtime lim = (vtime)p_.el_hi * 2 * 1000;
        if (r && !i->lead)
            violate("C15", "not-leader", "server %d reports to be leader but is not", id);
        if (p_.n > 1)
        {
            bool expired = (int)any.size() < others || now_ - any[(size_t)others - 1] > lim + 2000;
            bool fresh = (int)app.size() >= others && now_ - app[(size_t)others - 1] < lim - 2000;
            if (r && expired)
                violate("C15", "lease-expired", "server %d still reports to be leader, no quorum responded for more than %d ms", id, 2 * p_.el_hi);
            if (!r && i->lead && fresh)
                violate("C15", "lease-denied", "server %d is leader of term %llu with a quorum responding %.1f ms ago but reports not to be leader", id, (unsigned long long)i->lead_term, (double)(now_ - app[(size_t)others - 1]) / 1000.0);
            if (i->lead && expired) n_lease_false++;
            if (i->lead && fresh) n_lease_true++;
        }
        else if (!r && i->lead)
            violate("C15", "lease-denied", "the only server %d is leader but reports not to be", id);
    }
    return r;
}

void world::stand_still(vtime us)
{
    now_ += us;
    coop::vnow_ns = vbase_ns + now_ * 1000;
}
void world::check_lease_all()
{
    for (auto& p : std::map<int, inc*>(live_)) believes_leader(p.first);
}

bool world::client_batch(int id, int k, int size)
{
    inc* i = up(id);
    if (!i) return false;
    bool lead = believes_leader(id);
    ptr<req_msg> req = cs_new<req_msg>((ulong)0, msg_type::client_request, 0, id, (ulong)0, (ulong)0, (ulong)0);
    std::vector<std::string> cmds;
    for (int j = 0; j < k; ++j)
    {
        cmds.push_back(new_cmd(size));
        // a client that sends entries again sends them with some term of the past, which means nothing
        ulong old = cmd_no_ % 4 == 3 ? cmd_no_ / 4 % 5 : 0;
        req->log_entries().push_back(cs_new<log_entry>(old, mkbuf(cmds.back())));
    }
    ulong next0 = i->d.next();
    begin_call(i, msg_type::client_request);
    ptr<resp_msg> resp;
    guarded(i, "client request", [&]() { resp = i->rs->process_req(*req); });
    end_call(i);
    if (!i->alive || !resp) return false;
    ulong next1 = i->d.next();
    bool acc = resp->get_accepted();
    note("S%d client request of %d commands: accepted %d dst %d", id, k, acc, resp->get_dst());
    (acc ? n_accepted : n_rejected)++;
    if (acc)
    {
        if (!lead)
        {
            violate("C15", "accepted-without-lease", "server %d accepts a client command although it does not consider itself a leader with a quorum", id);
            violate("C28", "accepted-by-non-leader", "server %d accepts a client command although it is not leader", id);
        }
        if (!i->lead)
            violate("C28", "accepted-by-non-leader", "server %d accepts a client command although it is not leader", id);
        bool good = next1 == next0 + (ulong)k;
        for (int j = 0; good && j < k; ++j)
        {
            const entry* e = i->d.at(next0 + (ulong)j);
            good = e && e->type == log_val_type::app_log && e->data == cmds[(size_t)j] && e->term == i->d.term;
        }
        if (!good)
            violate("C28", "accepted-not-appended", "server %d accepts %d commands, its log goes from %llu to %llu and does not hold them under term %llu", id, k, (unsigned long long)next0, (unsigned long long)next1, (unsigned long long)i->d.term);
        mon_leader(i, i->d.term, "accepted a client command");
    }
    else
    {
        if (next1 != next0)
            violate("C28", "rejected-but-appended", "server %d rejects a client request but its log grew from %llu to %llu", id, (unsigned long long)next0, (unsigned long long)next1);
        if (lead)
            violate("C28", "leader-rejects", "server %d reports to be leader but rejects a client command", id);
        if (!i->lead && i->known_term == i->d.term && i->known_leader > 0 && resp->get_dst() != i->known_leader)
            violate("C28", "wrong-redirect", "server %d follows leader %d in term %llu but redirects a client to %d", id, i->known_leader, (unsigned long long)i->d.term, resp->get_dst());
    }
    return acc;
}

bool world::client_replicate(int id, int size)
{
    inc* i = up(id);
    if (!i) return false;
    bool lead = believes_leader(id);
    std::string cmd = new_cmd(size);
    bufptr b = mkbuf(cmd);
    ulong next0 = i->d.next();
    ptr<void> cookie;
    if (g_.chance(3, 4)) cookie = std::static_pointer_cast<void>(cs_new<std::string>(cmd));
    uint tag = g_.chance(1, 4) ? 0 : (uint)g_.next();
    if (cookie) i->cookies[cmd] = {cookie.get(), tag};
    bool r = false;
    begin_call(i, 0);
    guarded(i, "replicate_log", [&]() { r = i->rs->replicate_log(b, cookie, tag); });
    if (!r) i->cookies.erase(cmd);
    end_call(i);
    if (!i->alive) return false;
    ulong next1 = i->d.next();
    (r ? n_accepted : n_rejected)++;
    const entry* e = next1 == next0 + 1 ? i->d.at(next0) : nullptr;
    bool appended = e && e->data == cmd && e->type == log_val_type::app_log && e->term == i->d.term;
    note("S%d replicate_log -> %d (appended %d)", id, r, appended);
    if (r && (!appended || !i->lead))
        violate("C28", "replicate-true", "replicate_log on server %d reports success but the command is not the new last entry of a leader's log", id);
    if (!r && next1 != next0)
        violate("C28", "replicate-false", "replicate_log on server %d reports failure but the log grew from %llu to %llu", id, (unsigned long long)next0, (unsigned long long)next1);
    if (!r && lead)
        violate("C28", "replicate-denied", "replicate_log on server %d reports failure although it is leader", id);
    if (appended && !lead)
        violate("C15", "accepted-without-lease", "server %d takes a command although it does not consider itself a leader with a quorum", id);
    return r;
}

void world::client_append(int id, int k, int size, bool* done)
{
    inc* i = up(id);
    if (!i) return;
    std::vector<bufptr> logs;
    std::vector<std::string> cmds;
    for (int j = 0; j < k; ++j)
    {
        cmds.push_back(new_cmd(size));
        logs.push_back(mkbuf(cmds.back()));
    }
    ptr<async_result<bool>> res;
    begin_call(i, msg_type::client_request);
    guarded(i, "append_entries", [&]() { res = i->rs->append_entries(logs); });
    end_call(i);
    if (!res || !i->alive) return;
    struct track
    {
        int calls = 0;
    };
    auto t = std::make_shared<track>();
    world* w = this;
    async_result<bool>::handler_type h = [w, t, cmds, id, done](bool& ok, const ptr<std::exception>& err)
    {
        if (done) *done = ok && !err;
        if (++t->calls > 1) w->violate("C28", "double-completion", "append_entries on server %d completed twice", id);
        if (ok && !err)
        {
            w->n_accepted++;
            // some server of the cluster must hold all commands contiguously under one term
            bool found = false;
            for (int s : w->ids_)
            {
                const disk& d = w->disk_of(s);
                for (ulong k = d.start; k + cmds.size() <= d.next() && !found; ++k)
                {
                    bool all = true;
                    for (size_t j = 0; all && j < cmds.size(); ++j) all = d.at(k + j)->data == cmds[j] && d.at(k + j)->term == d.at(k)->term;
                    found = all;
                }
            }
            for (auto& c : cmds)
                if (w->cmd_idx_.count(c)) found = true;
            for (int s : w->ids_)
                if (w->disk_of(s).start > 1) found = true; // may be compacted
            bool over = w->n_overwrites > 0;
            if (!found && !over) w->violate("C28", "append-true", "append_entries on server %d reports success, no log holds the commands", id);
        }
        else
        {
            w->n_rejected++;
            if (!err)
                for (auto& c : cmds)
                {
                    bool found = w->cmd_idx_.count(c) != 0;
                    for (int s : w->ids_)
                    {
                        const disk& d = w->disk_of(s);
                        for (ulong k = d.start; k < d.next(); ++k)
                            if (d.at(k)->data == c) found = true;
                    }
                    if (found)
                    {
                        w->violate("C28", "append-false", "append_entries on server %d reports rejection without error, but a log holds the command", id);
                        break;
                    }
                }
        }
    };
    res->when_ready(h);
}

int world::leader_guess()
{
    int best = 0;
    ulong bt = 0;
    for (auto& p : live_)
        if (p.second->lead && p.second->d.term >= bt)
        {
            best = p.first;
            bt = p.second->d.term;
        }
    return best;
}

// ---------------------------------------------------------------- convergence
std::set<int> world::members_at_end()
{
    std::set<int> m;
    for (int i = 1; i <= p_.n; ++i)
        if (!removed_.count(i)) m.insert(i);
    return m;
}

// a healthy cluster in use: commands are committed without waiting for a heartbeat, forwarded ones get through,
// followers hear from their leader all the time and keep it
void world::steady_use(int L)
{
    if (!target("C09") && !target("C28")) return;
    ulong term = up(L)->d.term;
    for (int k = 0; k < 3; ++k)
    {
        run_for((vtime)g_.below((uint32_t)p_.hb * 1000));
        if (!up(L) || !up(L)->lead || up(L)->d.term != term) break;
        if (!client_batch(L, 1, 8))
        {
            violate("C28", "refused-in-health", "leader %d refuses a command in a healthy cluster", L);
            violate("C09", "refused-in-health", "leader %d refuses a command in a healthy cluster", L);
            return;
        }
        ulong idx = up(L)->d.next() - 1;
        vtime t0 = now_;
        while (up(L) && up(L)->applied < idx && now_ < t0 + (vtime)p_.hb * 500) run_for(1000);
        if (up(L) && up(L)->lead && up(L)->d.term == term && up(L)->applied < idx)
            violate("C09", "slow-commit", "leader %d of a healthy cluster has not applied a command half a heartbeat interval after it took it (round trips take %d to %d us)", L, 2 * net_.dmin, 2 * net_.dmax);
        t0 = now_;
        int late = 0;
        do
        {
            late = 0;
            for (int id : members_at_end())
                if (!up(id) || up(id)->applied < idx) late = id;
            if (late) run_for(1000);
        } while (late && now_ < t0 + 25000);
        if (late && !p_.snap_dist && up(L) && up(L)->lead && up(L)->d.term == term && up(L)->applied >= idx) // (pieces of a snapshot take longer)
            violate("C09", "slow-spread", "server %d of a healthy cluster has not applied a command 25 ms after its leader %d applied it (round trips take %d to %d us)", late, L, 2 * net_.dmin, 2 * net_.dmax);
    }
    for (int id : members_at_end())
    {
        if (id == L || !up(id) || !up(L) || up(L)->d.term != term) continue;
        bool* ok = new bool(false); // (the handler may outlive this call)
        client_append(id, 1, 8, ok);
        run_for(30000);
        if (!*ok && up(L) && up(L)->lead && up(L)->d.term == term)
            violate("C28", "not-forwarded", "append_entries on follower %d of a healthy cluster led by %d was not accepted within 30 ms", id, L);
    }
    gap_.clear();
    vtime t0 = now_;
    for (int id : members_at_end()) heard_[id] = now_;
    run_for((vtime)p_.el_hi * 1000 * 4);
    if (c_.rec()->status == pbt::st_discard) return;
    if (!up(L) || !up(L)->lead || up(L)->d.term != term)
    {
        violate("C09", "leader-lost", "server %d does not lead term %llu any more although nothing went wrong since %.3f ms", L, (unsigned long long)term, (double)t0 / 1000);
        return;
    }
    for (int id : members_at_end())
        if (id != L && std::max(gap_[id], now_ - heard_[id]) > (vtime)p_.hb * 1500)
            violate("C09", "heartbeat-gap", "follower %d did not hear from leader %d for %.3f ms, the heartbeat interval is %d ms", id, L, (double)std::max(gap_[id], now_ - heard_[id]) / 1000, p_.hb);
    c_.label("steady");
}

// a server that was out of reach comes back: the leader stays
void world::rejoin(int L)
{
    if (!target("C14") || !p_.prevote || p_.n < 3 || membership_ || !up(L) || !up(L)->lead || c_.rec()->status == pbt::st_discard) return;
    ulong term = up(L)->d.term;
    int x = 1 + (int)g_.below((uint32_t)p_.n);
    if (x == L) x = x % p_.n + 1;
    std::set<int> rest;
    for (int id : members_at_end())
        if (id != x) rest.insert(id);
    isolate(rest);
    run_for((vtime)p_.el_hi * 1000 * (1 + (vtime)g_.below(4)) + (vtime)g_.below(100000));
    if (up(L) && up(L)->lead && up(L)->d.term == term) client_batch(L, 1, 8);
    run_for((vtime)p_.el_hi * 1000 * (1 + (vtime)g_.below(3)));
    heal_links();
    run_for((vtime)p_.el_hi * 1000 * 6);
    n_rejoin++;
    for (int id : members_at_end())
        if (up(id) && up(id)->d.term != term)
        {
            violate("C14", "disrupted", "server %d was out of reach for a while and came back: server %d is in term %llu now, leader %d had term %llu, and nothing else went wrong", x, id, (unsigned long long)up(id)->d.term, L, (unsigned long long)term);
            break;
        }
}

// servers must not wait for the same times again and again
void world::mon_spread()
{
    if (membership_) return;
    std::map<std::vector<int>, int> first;
    size_t n = 0, all = 0;
    std::set<int> vals;
    for (inc* i : all_incs_)
    {
        vals.insert(i->el_delays.begin(), i->el_delays.end());
        all += i->el_delays.size();
        if (i->el_delays.size() < 6) continue;
        ++n;
        first[std::vector<int>(i->el_delays.begin(), i->el_delays.begin() + 6)]++;
    }
    if (all >= 12 && vals.size() == 1)
        violate("C30", "same-timeout", "all of %zu election timeouts are %d ms", all, *vals.begin());
    if (n >= 2 && first.size() == 1)
        violate("C30", "same-timeouts", "%zu servers draw the same sequence of election timeouts", n);
}

void world::converge(const char* why)
{
    op("heal and converge (%s)", why);
    quiet_ = true;
    heal_links();
    net_ = mode();
    for (auto& p : live_)
    {
        p.second->frozen = false;
        p.second->crash_in = -1;
    }
    release_held(0, true);
    for (int id : members_at_end()) start(id);
    vtime t_end = now_ + (vtime)p_.el_hi * 1000 * 100;
    std::string probe;
    int stable = 0;
    while (now_ < t_end)
    {
        run_for((vtime)p_.el_hi * 1000);
        if (c_.rec()->status == pbt::st_discard) return;
        std::set<int> mem = members_at_end();
        for (int id : mem) start(id);
        int leaders = 0, L = 0;
        for (int id : mem)
            if (believes_leader(id))
            {
                ++leaders;
                L = id;
            }
        bool same = !probe.empty() && leaders == 1 && cmd_idx_.count(probe) != 0;
        if (same)
            for (int id : mem)
            {
                inc* i = up(id);
                if (!i || i->d.sm.empty() || !up(*mem.begin()) || i->d.sm != up(*mem.begin())->d.sm || i->applied < cmd_idx_[probe]) same = false;
            }
        if (same && ++stable >= 2)
        {
            // every committed command is there
            inc* i = up(*mem.begin());
            std::map<ulong, std::string> m(i->d.sm.begin(), i->d.sm.end());
            for (auto& c : committed_)
                if (c.second.type == log_val_type::app_log && (!m.count(c.first) || m[c.first] != c.second.data))
                {
                    violate("C03", "lost-command", "after healing, the command committed at index %llu is not in the final state", (unsigned long long)c.first);
                    violate("C09", "lost-command", "after healing, the command committed at index %llu is not in the final state", (unsigned long long)c.first);
                    break;
                }
            for (auto& a : applied_)
                if (!m.count(a.first) || m[a.first] != a.second)
                {
                    violate("C02", "final-state", "the command applied at index %llu is not in the final state", (unsigned long long)a.first);
                    violate("C03", "lost-command", "the command applied at index %llu is not in the final state", (unsigned long long)a.first);
                    break;
                }
            for (int id : mem)
                if (inc* x = up(id))
                    if (!x->frozen && x->bg && !coop::can_run(x->bg) && !x->idle_told)
                        violate("C29", "catch-up-silent", "server %d has applied everything it knows to be committed and did not announce that it caught up", id);
            mon_spread();
            c_.label("converged");
            steady_use(L);
            rejoin(L);
            return;
        }
        if (!same) stable = 0;
        if (leaders == 1 && (probe.empty() || !same))
        {
            // (re)submit a fresh command
            if (probe.empty() || (now_ / ((vtime)p_.el_hi * 1000)) % 5 == 0 || !cmd_idx_.count(probe))
            {
                uint64_t before = cmd_no_;
                if (client_batch(L, 1, 12)) probe = "";
                (void)before;
                for (auto& s : submitted_)
                    if (s.compare(0, 1 + std::to_string(cmd_no_).size() + 1, "c" + std::to_string(cmd_no_) + ":") == 0) probe = s;
            }
        }
    }
    // diagnose
    std::string d;
    for (int id : members_at_end())
    {
        inc* i = up(id);
        char b[200];
        if (i)
            snprintf(b, sizeof b, " S%d: %s term %llu log [%llu,%llu) applied %llu;", id, i->lead ? "leader" : "follower", (unsigned long long)i->d.term, (unsigned long long)i->d.start, (unsigned long long)i->d.next(), (unsigned long long)i->applied);
        else
            snprintf(b, sizeof b, " S%d: down;", id);
        d += b;
    }
    violate("C09", "no-convergence", "no convergence within %d election timeouts after healing:%s", 100, d.c_str());
    c_.label("not-converged");
}
} // namespace sim
