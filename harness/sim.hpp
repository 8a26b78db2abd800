// Deterministic cluster simulator for real raft_server objects, with reference monitors for the raft guarantees.
#pragma once
#include "coop.hpp"
#include "cornerstone.hxx"
#include "engine.hpp"
#include "fs_log_store.hxx"
#include "util.hpp"
#include <array>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>

namespace sim
{
using namespace cornerstone;
typedef int64_t vtime; // microseconds

struct entry
{
    ulong term;
    int type;
    std::string data;
};
inline bool operator==(const entry& a, const entry& b) { return a.term == b.term && a.type == b.type && a.data == b.data; }

struct snap_rec
{
    ulong idx = 0, term = 0;
    std::string conf; // serialized cluster_config
    std::string data;
};

typedef std::vector<std::pair<ulong, std::string>> sm_state; // applied (index, command)

// everything a server keeps across crashes
struct disk
{
    ulong start = 1;
    std::deque<entry> log;
    bool has_state = false;
    ulong term = 0;
    int voted = -1;
    std::string conf;
    ulong sm_idx = 0;
    sm_state sm;
    bool has_snap = false;
    snap_rec snap;
    // snapshots being received, by index, term and size
    struct rx_t
    {
        std::string bytes;
        std::vector<bool> have;
    };
    std::map<std::array<ulong, 3>, rx_t> rx;
    ulong rx_idx = 0; // index of the latest piece

    ulong next() const { return start + log.size(); }
    const entry* at(ulong i) const { return i >= start && i < next() ? &log[i - start] : nullptr; }
    // term of the last log position, if it can be told
    bool last_term(ulong& t) const
    {
        if (!log.empty()) { t = log.back().term; return true; }
        if (start == 1) { t = 0; return true; }
        if (has_snap && snap.idx == start - 1) { t = snap.term; return true; }
        return false;
    }
};

struct params
{
    int n = 3;
    int spare = 0; // additional servers that can be added
    int el_lo = 200, el_hi = 400, hb = 80, backoff = 25;
    int max_append = 100, snap_dist = 0, reserved = 0, block = 0;
    int sync_batch = 1000, sync_gap = 10;
    bool prevote = false, defensive = true;
    bool sm_durable = true;
    int snap_mode = 0;      // 0 sync ok, 1 async ok, 2 mixed with rejections, failures and exceptions
    bool log_copies = false; // log store returns deserialized copies (as for unbuffered entries)
    bool crash_ops = true;
    bool sm_reads = false; // the state machine reads through the position of the buffers it is given
    bool fine = false; // pause the apply thread inside callbacks
    int pad = 0;       // snapshot padding
    int fs = 0;        // 0: logs in memory; otherwise they are fs_log_stores, with a buffer of so many entries (-1: its default)
};

struct mode
{
    int drop = 0, rdrop = 0, dup = 0; // percent
    int dmin = 1000, dmax = 2000;     // delay in us
    int hold = 0;                     // percent of messages kept until released
};

enum link_t : uint8_t
{
    l_open = 0,
    l_cut,
    l_hold
};

class world;
struct inc;

// the log of one run: in memory, or a real fs_log_store that is compared with what the memory says at each call
class mem_log : public log_store
{
public:
    explicit mem_log(inc* i);
    ulong next_slot() const override;
    ulong start_index() const override;
    ptr<log_entry> last_entry() const override;
    ulong append(ptr<log_entry>& e) override;
    void write_at(ulong index, ptr<log_entry>& e) override;
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong start, ulong end) override;
    ptr<log_entry> entry_at(ulong index) override;
    ulong term_at(ulong index) override;
    bufptr pack(ulong index, int32 cnt) override;
    void apply_pack(ulong index, buffer& pack) override;
    bool compact(ulong last_log_index) override;
    void left_behind(); // the process died: the next run gets the files as they are

private:
    void same(const char* call, ulong idx, const ptr<log_entry>& got, const entry* want) const;
    void ends(const char* call) const;
    template <class F> auto doing(const char* call, bool valid, F f) -> decltype(f())
    {
        try
        {
            return f();
        }
        catch (std::exception& e)
        {
            threw(call, valid, e.what());
            throw;
        }
    }
    void threw(const char* call, bool valid, const char* what) const;
    fs_log_store* fs_ = nullptr; // never closed: zombies may still use it
    std::string dir_;
    ptr<log_entry> get(ulong index);
    inc* i_;
    std::deque<ptr<log_entry>> live_;
};

class mem_mgr : public state_mgr
{
public:
    explicit mem_mgr(inc* i) : i_(i) {}
    ptr<cluster_config> load_config() override;
    void save_config(const cluster_config& config) override;
    void save_state(const srv_state& state) override;
    ptr<srv_state> read_state() override;
    ptr<log_store> load_log_store() override;
    int32 server_id() override;
    void system_exit(const int exit_code) override;

private:
    inc* i_;
};

class mem_sm : public state_machine
{
public:
    explicit mem_sm(inc* i) : i_(i) {}
    void commit(const ulong log_idx, buffer& data, const uptr<log_entry_cookie>& cookie) override;
    void pre_commit(const ulong log_idx, buffer& data, const uptr<log_entry_cookie>& cookie) override;
    void rollback(const ulong log_idx, buffer& data, const uptr<log_entry_cookie>& cookie) override;
    void save_snapshot_data(snapshot& s, const ulong offset, buffer& data) override;
    bool apply_snapshot(snapshot& s) override;
    int read_snapshot_data(snapshot& s, const ulong offset, buffer& data) override;
    ptr<snapshot> last_snapshot() override;
    ulong last_commit_index() override;
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& when_done) override;

private:
    inc* i_;
};

class mem_sched : public delayed_task_scheduler
{
public:
    explicit mem_sched(inc* i) : i_(i) {}
    void schedule(ptr<delayed_task>& task, int32 milliseconds) override;

private:
    void cancel_impl(ptr<delayed_task>& task) override;
    inc* i_;
};

class mem_client : public rpc_client
{
public:
    mem_client(inc* i, int dst) : i_(i), dst_(dst) {}
    void send(ptr<req_msg>& req, rpc_handler& when_done) override;

private:
    inc* i_;
    int dst_;
};

class mem_factory : public rpc_client_factory
{
public:
    explicit mem_factory(inc* i) : i_(i) {}
    ptr<rpc_client> create_client(const std::string& endpoint) override;

private:
    inc* i_;
};

class mem_logger : public logger
{
public:
    explicit mem_logger(inc* i) : i_(i) {}
    void debug(const std::string& l) override;
    void info(const std::string& l) override;
    void warn(const std::string& l) override;
    void err(const std::string& l) override;

private:
    inc* i_;
};

class mem_events : public raft_event_listener
{
public:
    explicit mem_events(inc* i) : i_(i) {}
    void on_event(raft_event e) override;

private:
    inc* i_;
};

struct server_exit
{
};

// one run of one server
struct inc
{
    world* w = nullptr;
    int id = 0, no = 0;
    bool alive = true;
    bool constructing = true;
    disk d;
    raft_server* rs = nullptr;
    coop::thread* bg = nullptr;
    bool bg_event = false;
    bool frozen = false; // apply thread not scheduled
    ptr<mem_log> log;
    ptr<mem_sm> sm;
    std::map<uint64_t, ptr<delayed_task>> pend;              // scheduled tasks by schedule number
    std::unordered_map<delayed_task*, uint64_t> timers;      // current schedule number of a task
    std::map<ulong, snap_rec> snaps;                         // snapshots this server can serve
    std::string lines[4];
    uint64_t nlines = 0;
    ulong snap_base = 0; // index of the last snapshot known to the server
    // storage crash injection
    int crash_in = -1;
    bool crash_before = false;
    // observed role
    bool lead = false;
    ulong lead_term = 0;
    int known_leader = -1; // leader whose entries were accepted in known_term
    ulong known_term = 0;
    // apply discipline
    ulong applied = 0; // last index handed to the state machine (or skipped as configuration), this run
    // pre-commit bookkeeping
    std::map<ulong, std::string> pre;          // announced, not rolled back
    std::map<ulong, int> origin;               // 1: through client request or AppendEntries in this run
    std::multimap<ulong, std::string> dropped; // app entries removed in the current call, announced before
    std::multimap<ulong, std::string> dropped_opt;
    std::multimap<ulong, std::string> rolled;  // rollbacks in the current call
    int in_req = 0;                            // message type being processed
    // snapshots
    bool snap_pending = false;
    async_result<bool>::handler_type snap_cb;
    snap_rec snap_new;
    int since_free = 0; // commands applied since no snapshot was being made
    ulong snap_try_idx = 0, snap_ok_idx = 0, inst_idx = 0;
    // lease
    std::map<int, vtime> last_resp, last_append_ok;
    vtime lead_since = 0;
    // membership
    bool leave_ok = false; // this server was told to leave / removed
    bool candidate = false;
    ulong cand_term = 0;
    std::map<ulong, std::set<int>> prevotes; // term -> servers that granted a prevote
    bool stale_conf = false;
    // events
    ulong known_commit = 0;   // highest commit index this server was told or announced
    bool idle_told = false;   // logs_catch_up was announced after the last applied command
    std::set<ulong> led_terms; // terms announced by become_leader
    bool sent_as_leader = false;
    // prevote
    bool timed_out = false; // the election timer fired since this server last heard from a leader
    // timers
    bool led_now = false;          // in the current call
    std::vector<int> call_hb;      // heartbeat delays of the current call
    std::set<int> unanswered;      // servers whose last message failed
    std::vector<int> el_delays;
    // cookies of the commands this run took through replicate_log
    std::map<std::string, std::pair<const void*, uint>> cookies;
    std::map<std::string, std::pair<const void*, uint>> rolled_cookies; // of entries dropped in the current call
    bool exit_ok = false; // may shut down: its storage failed
    bool read_failed = false;
};

struct msg
{
    uint64_t id = 0;
    int src = 0, dst = 0;
    inc* from = nullptr;
    ptr<req_msg> orig, req;
    rpc_handler h;
    bool is_resp = false;
    ptr<resp_msg> resp;
    bool err = false;
    bool dup = false;
    ulong fwd = 0; // client forward tracking
};

struct committed_rec
{
    ulong term;
    int type;
    std::string data;
    ulong cterm; // term of the leader that committed it
};

struct sess // a client call being tracked
{
    bool done = false, result = false, err = false;
};

class world
{
public:
    world(pbt::Case& c, const char* prop, const params& p);

    // topology and faults
    void boot_all();
    inc* up(int id) { return live_.count(id) ? live_[id] : nullptr; }
    void start(int id);
    void crash(int id);
    void kill(inc* i, const char* why);
    void set_link(int a, int b, link_t v) { links_[a][b] = v; }
    void isolate(const std::set<int>& group); // cut every link between group and the rest
    void heal_links();
    link_t link(int a, int b) { return links_[a][b]; }
    mode& net() { return net_; }
    void release_held(uint32_t k, bool all);
    size_t held() const { return held_.size(); }

    // time
    void run_for(vtime us);
    bool step(vtime until); // one event; false if none before until
    vtime now() const { return now_; }
    bool fire_election(int id);
    void run_bg(inc* i);
    void settle_bg();

    // clients
    std::string new_cmd(int size);
    bool client_batch(int id, int k, int size);
    void client_append(int id, int k, int size, bool* ok = nullptr);
    bool client_replicate(int id, int size);
    int leader_guess();
    bool believes_leader(int id);
    void check_lease_all();
    void stand_still(vtime us); // time passes and nobody runs

    // end phase: heal everything and demand convergence; returns true if converged
    void converge(const char* why);
    void steady_use(int L);
    void rejoin(int L);
    void mon_spread();
    void mon_cookie(inc* i, ulong idx, const std::string& s, const uptr<log_entry_cookie>& c, const char* how);

    // reporting
    void violate(const char* prop, const char* key, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
    bool target(const char* p) const { return prop_ == p || prop_ == "ALL"; }
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void op(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    std::string ops_text() const { return ops_; }

    // callbacks from the harness objects
    bool storage_op(inc* i, bool before); // crash injection
    void mon_log_whole(inc* i);
    void mon_log_write(inc* i, ulong idx, const entry& e);
    void mon_log_drop(inc* i, ulong from, ulong to_excl, ulong except); // entries leave the tail of the log
    void mon_commit_index(inc* i, ulong c, const char* how);
    void mon_leader(inc* i, ulong term, const char* how);
    void mon_state(inc* i, ulong old_term, int old_vote);
    void mon_applied(inc* i, ulong idx, const std::string& data, const char* how);
    void mon_compact(inc* i, ulong upto);
    void begin_call(inc* i, int type);
    void end_call(inc* i);
    void send(inc* from, int dst, ptr<req_msg>& req, rpc_handler& h);
    void timer(inc* i, ptr<delayed_task>& t, int32 ms);
    void on_exit(inc* i, int code);
    template <typename F>
    void guarded(inc* i, const char* what, F&& f);
    void at(vtime t, std::function<void()> f);
    std::string snap_bytes(inc* i, ulong idx, const sm_state& st);
    static bool snap_decode(const std::string& s, sm_state& st);
    int majority() const { return p_.n / 2 + 1; }
    int stored_on(ulong idx, const entry& e);
    const disk& disk_of(int id) { return live_.count(id) ? live_[id]->d : disks_[id]; }
    std::set<int> members_at_end();

    // membership
    std::vector<int> pool();                       // servers that exist (up or down)
    void provision(int id, bool copy_conf);        // a new server with empty storage
    bool member_req(int at, bool add, int target); // add or remove request handled by server at
    void member_api(int at, bool add, int target);
    void bad_member_req(int at, int kind);
    std::vector<std::set<int>> views(inc* i);      // configurations server i may be working with
    void mon_conf_write(inc* i, ulong idx, const entry& e);
    void mon_conf_saved(inc* i, const std::string& old);
    std::set<int> agreed();                        // members by the latest committed configuration
    void switch_off();
    bool was_member(int id) const { return ever_.count(id) != 0; }
    bool steady(int tries);                        // heal; true when the members agree and make progress
    void healthy_changes();
    int fresh_id();
    std::set<int> lost_, prov_, joined_, ever_;
    std::map<int, vtime> heard_, gap_; // last request of a leader, longest time between two of them
    bool forced_lag_ = false; // the only other member was removed while a server did not know about the change before
    std::map<ulong, std::string> saved_;
    uint64_t n_adds = 0, n_rms = 0, n_refused = 0, n_left = 0;

    pbt::Case& c_;
    std::string prop_;
    params p_;
    pbt::rng g_; // noise inside one operation; reseeded per operation
    std::map<int, inc*> live_;
    std::map<int, disk> disks_;
    std::unique_ptr<util::scratch> scratch_;
    std::map<std::string, std::vector<entry>> packs_; // log packs the log stores made
    std::string log_dir(int id, int no)
    {
        if (!scratch_) scratch_.reset(new util::scratch);
        return scratch_->path + "/s" + std::to_string(id) + "_" + std::to_string(no);
    }
    std::map<int, int> inc_no_;
    std::set<int> ids_;
    std::set<int> removed_;
    inc* cur_ = nullptr; // server that was called last
    bool membership_ = false;
    bool timing_ = true; // no forced timers were used (real-time assumptions hold)
    bool quiet_ = false; // converge phase
    std::vector<inc*> all_incs_;

    // registries
    std::map<ulong, int> leader_of_;                                  // term -> server
    std::map<std::pair<int, ulong>, int> vote_;                       // (server, term) -> candidate
    std::map<std::pair<ulong, ulong>, std::pair<entry, ulong>> ents_; // (index, term) -> entry, previous term
    std::map<ulong, committed_rec> committed_;
    ulong max_committed_ = 0;
    std::map<ulong, std::string> applied_; // index -> command applied anywhere
    std::map<std::string, ulong> cmd_idx_; // command -> index it was applied at
    std::set<std::string> submitted_;
    std::map<std::pair<ulong, int>, std::string> snaps_; // (index, creator) -> bytes
    std::map<ulong, std::string> confs_;                 // index -> committed configuration bytes
    // statistics
    uint64_t n_events = 0, n_msgs = 0, n_commits = 0, n_elections = 0, n_crashes = 0, n_snap_sent = 0, n_snap_installed = 0,
             n_compacts = 0, n_overwrites = 0, n_rollbacks = 0, n_accepted = 0, n_rejected = 0, n_dups = 0, n_drops = 0,
             n_restarts = 0, n_snap_created = 0, n_conf = 0, n_lease_false = 0, n_lease_true = 0, n_pv_req = 0,
             n_crash_op = 0, n_held = 0, n_cookies = 0, n_catch_up = 0, n_timers = 0, n_rejoin = 0, n_full = 0, n_multi_over = 0, n_snap_blocks = 0, n_votes = 0;
    int max_snap_blocks = 0;

private:
    void deliver(msg m);
    void respond(msg m, ptr<resp_msg> resp, bool err);
    void dispatch(msg m, int delay_us);
    void after_call(inc* i);
    void schedule_bg(inc* i);

    struct ev
    {
        vtime t;
        uint64_t seq;
        bool operator<(const ev& o) const { return t != o.t ? t < o.t : seq < o.seq; }
    };
    std::map<ev, std::function<void()>> q_;
    uint64_t seq_ = 0;
    vtime now_ = 0;
    mode net_;
    std::map<int, std::map<int, link_t>> links_;
    std::deque<msg> held_;
    std::string ops_;
    uint64_t msg_id_ = 0;
    uint64_t cmd_no_ = 0;
};

std::string conf_bytes(const cluster_config& c);
ptr<cluster_config> conf_parse(const std::string& s);
std::string buf_bytes(buffer& b, bool from_start);
bufptr mkbuf(const std::string& s);
std::set<int> conf_ids(const std::string& s);
template <typename F>
void world::guarded(inc* i, const char* what, F&& f)
{
    cur_ = i;
    try
    {
        f();
    }
    catch (server_exit&)
    {
    }
    catch (std::exception& e)
    {
        if (i->alive) violate("C12", "throw", "%s on server %d threw: %s", what, i->id, e.what());
        if (i->alive && membership_) violate("C13", "throw", "%s on server %d threw: %s", what, i->id, e.what());
    }
    catch (...)
    {
        if (i->alive) violate("C12", "throw", "%s on server %d threw an unknown exception", what, i->id);
        if (i->alive && membership_) violate("C13", "throw", "%s on server %d threw an unknown exception", what, i->id);
    }
}

} // namespace sim
