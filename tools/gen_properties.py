#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

RS, RQ, RR = "src/raft_server.cxx", "src/raft_server_req_handlers.cxx", "src/raft_server_resp_handlers.cxx"
TESTS = ("the raft tests start three servers once, on a loss-free in-process or loopback network, elect one leader, "
         "send 100 messages and stop; ")

prop("C01", "At most one leader per term",
 "For every term, at most one server of a cluster ever acts as leader of that term (sends log entries, heartbeats or snapshots under it, or appends client commands under it), no matter how messages are lost, delayed, duplicated or reordered and how servers crash and restart from their persisted state.",
 ["schedules", "crash_points", "fault_sequences", "histories", "configurations"],
 "all cluster sizes, prevote settings, message schedules, partitions, crash points and restarts of a cluster with a fixed membership",
 TESTS + "two elections never overlap and no server crashes between voting and answering.",
 [RS, RQ, RR, "include/srv_state.hxx"],
 [("vote counting and majority", "raft_server::handle_voting_resp, request_vote"), ("vote granting", "raft_server::handle_vote_req"), ("vote/term persistence before answering", "state_mgr::save_state calls")],
 ["append_entries_request / install_snapshot_request sent through rpc_client", "raft_event::become_leader"],
 [("state_", "term and vote, persisted through state_mgr", "raft_server")])
prop("C02", "All servers apply the same command at the same log index",
 "If any two servers (or two incarnations of one server) ever hand a command to their state machine at the same log index, directly or as the content of an applied snapshot, it is the same command.",
 ["schedules", "crash_points", "fault_sequences", "histories", "configurations"],
 "all histories of elections, client commands, partitions, crashes, restarts, log overwrites, snapshots and log compactions",
 TESTS + "no log conflict, no leader change with unreplicated entries and no snapshot ever occurs.",
 [RS, RQ, RR], [("commit index rules", "raft_server::commit, handle_append_entries, handle_append_entries_resp"), ("background apply", "raft_server::commit_in_bg"), ("snapshot install", "raft_server::handle_snapshot_sync_req")],
 ["state_machine::commit", "state_machine::apply_snapshot"])
prop("C03", "A committed entry is never lost or overwritten",
 "Once an entry is committed (applied by any server, or covered by the commit index a leader announces), no server that holds it ever truncates or overwrites it, and the log (or snapshot) of every later leader contains it at the same index; so a command acknowledged as applied survives any leader change and any crash and restart of servers that keep their persisted state.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "all interleavings of elections, partial replication, crashes and partitions, including several terms of leaders that each replicate to a minority",
 TESTS + "the dangerous histories need at least three terms and a leader that replicates an old-term entry.",
 [RS, RQ, RR], [("up-to-date check of a candidate's log", "raft_server::handle_vote_req"), ("commit only by counting replicas", "raft_server::handle_append_entries_resp"), ("conflict handling on followers", "raft_server::handle_append_entries")],
 ["log_store::append / write_at / apply_pack / compact", "state_machine::commit", "commit index in append_entries_request"])
prop("C04", "Logs with the same index and term are identical up to that index",
 "If two servers' logs contain an entry with the same index and term, the entries carry the same type and payload and all retained entries before them are identical too; terms never decrease along a log and never exceed the server's current term.",
 ["schedules", "crash_points", "fault_sequences", "histories", "inputs"],
 "all message schedules incl. duplicated, delayed and reordered AppendEntries, all batch sizes, payload sizes, crashes and restarts",
 TESTS + "followers never see a conflicting, duplicated or reordered AppendEntries request.",
 [RS, RQ, "include/log_entry.hxx"], [("previous-entry consistency check", "raft_server::handle_append_entries"), ("request construction", "raft_server::create_append_entries_req")],
 ["log_store::append / write_at / apply_pack"])
prop("C05", "Commands are applied in order, exactly once, with the client's bytes",
 "Within one run of a server, the state machine receives committed client commands in strictly increasing index order starting right after its last applied index, without skipping or repeating any client command, also when a snapshot is installed meanwhile, each with exactly the bytes the client submitted, readable from the first one, whatever the state machine read of it before and while the same entry is sent to other servers, and never anything that is not a client command; a command submitted once is never applied at two different indexes, and nothing is applied that no client submitted.",
 ["schedules", "histories", "crash_points", "inputs"],
 "all commit/apply interleavings, batch sizes, payloads, configuration entries in between, snapshot installs and restarts",
 TESTS + "they only count commits and never compare payloads, order or gaps.",
 [RS, RQ], [("background apply loop", "raft_server::commit_in_bg"), ("apply position", "raft_server ctor, handle_snapshot_sync_req")],
 ["state_machine::commit", "state_machine::last_commit_index"])
prop("C06", "Nothing is committed before a majority has stored it",
 "When a leader announces a commit index, or any server applies an entry, that entry is already in the persistent log (or covered by a persisted snapshot) of a majority of the cluster, counting each server once and counting it only while it really stores the entry.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "all cluster sizes and all schedules of acknowledgements, incl. stale acknowledgements of earlier terms and responses that arrive late or after a leader change",
 TESTS + "all servers are always up, so committing too early is invisible.",
 [RR, RS], [("majority match index", "raft_server::handle_append_entries_resp"), ("acknowledged index", "handle_append_entries response, peer matched index")],
 ["commit index in append_entries_request", "state_machine::commit", "log_store contents"])
prop("C07", "One durable vote per term, only for an up-to-date candidate",
 "A server grants its vote to at most one candidate per term, even across crashes and restarts, because term and vote are persisted before the vote is answered or requested; it grants only to a candidate of its current term whose log is at least as up to date (last term, then last index) as its own, and its persisted term never decreases.",
 ["schedules", "crash_points", "inputs", "histories"],
 "all vote requests (any term, index, sender) in any order, any log content incl. fully compacted logs, crashes after any persistence operation",
 TESTS + "one uncontested election; the up-to-date rule and vote persistence are never exercised.",
 [RQ, RS, "include/srv_state.hxx"], [("vote decision", "raft_server::handle_vote_req"), ("term update", "raft_server::update_term"), ("self vote", "raft_server::request_vote")],
 ["vote_response returned by process_req", "state_mgr::save_state"])
prop("C08", "Every dropped speculative entry is rolled back exactly once",
 "A client command that a server takes into its log through a client request or AppendEntries is announced to its state machine by exactly one pre-commit with the same index and bytes before it is committed; when such an uncommitted entry is removed from the log because the leader's log differs, the state machine gets exactly one rollback for it with its index and bytes, and no rollback is ever issued for an entry that stays in the log or is committed.",
 ["schedules", "histories", "fault_sequences"],
 "all conflict shapes: number of conflicting entries, batch sizes, repeated overwrites, duplicates of the overwriting request",
 "no existing test makes a follower drop an entry; pre_commit and rollback are empty in the test state machine.",
 [RQ], [("overwrite and append loops", "raft_server::handle_append_entries"), ("leader-side pre-commit", "raft_server::handle_cli_req")],
 ["state_machine::pre_commit / rollback / commit", "log_store mutations"])
prop("C09", "After faults stop, the cluster elects a leader and converges",
 "Whatever happened before, once a majority-connected cluster is healed (all servers running, messages delivered), within a bounded number of election timeouts exactly one leader emerges, accepts new client commands, and every server applies those commands and all earlier committed ones, ending with equal state machines; from then on the leader stays, followers hear from it at every heartbeat interval, and a command it accepts is applied within a few message round trips, without waiting for a heartbeat.",
 ["schedules", "fault_sequences", "crash_points", "histories", "configurations"],
 "all preceding histories of partitions, crashes, message loss, log divergence, compaction and snapshot transfer; prevote off, on, and on with defensive mode",
 TESTS + "they never lose a message, so retry, backoff, log repair and snapshot catch-up paths are not run.",
 [RS, RR, RQ, "include/peer.hxx", "src/peer.cxx"], [("election timer", "raft_server::handle_election_timeout, restart_election_timer"), ("heartbeats and back-off", "handle_hb_timeout, peer::slow_down_hb"), ("log back-tracking", "handle_append_entries_resp")],
 ["state_machine::commit on every server", "raft_server::is_leader"])
prop("C10", "A transferred snapshot is complete and byte-exact",
 "Whenever a server applies a snapshot received from a leader, the pieces it was given before reassemble exactly to the bytes the sender holds for the snapshot of that last index and term (no hole, overlap error or mix of two snapshots), and its resulting state equals the result of applying all commands up to that index; afterwards it continues applying right after that index, also when the server stops at any point of the installation and is restarted. Pieces are sent from where the receiver has got to, for snapshots of any size, and bytes that could not be read are never sent.",
 ["schedules", "fault_sequences", "inputs", "histories"],
 "all snapshot sizes (to many terabytes) and block sizes, interruptions and retries at any block, newer snapshots taken during transfer, leader changes during transfer",
 "no existing test transfers a snapshot.",
 [RS, RQ, RR, "include/snapshot_sync_ctx.hxx", "src/snapshot_sync_req.cxx"], [("block cutting", "raft_server::create_sync_snapshot_req"), ("offset progress", "handle_install_snapshot_resp, handle_ext_resp"), ("install", "handle_snapshot_sync_req")],
 ["state_machine::save_snapshot_data / apply_snapshot / read_snapshot_data"])
prop("C11", "Compaction discards only what a snapshot covers and keeps the reserve",
 "A server discards log entries only up to an index that a successfully created or installed snapshot of its own covers, keeping at least the configured number of reserved entries before the index of a snapshot it created; a snapshot is requested only for an already applied index, at least the configured distance after the previous one, carries the cluster configuration in force at its index, and after a failed, rejected or slow snapshot the server keeps working and can snapshot again later.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "all snapshot distances, reserve sizes, synchronous/asynchronous/rejected snapshot creation, restarts, membership entries before and after",
 "no existing test enables snapshots in a raft server.",
 [RS], [("snapshot trigger", "raft_server::snapshot_and_compact"), ("compaction", "raft_server::on_snapshot_completed")],
 ["log_store::compact", "state_machine::create_snapshot"])
prop("C12", "Network faults, crashes and restarts never make a server stop itself",
 "As long as its storage and state machine work and it is not removed from the cluster, a server never shuts itself down, throws out of a public call, crashes or reads invalid memory because of lost, delayed, duplicated or reordered messages, partitions, or crashes and restarts of itself or others at any storage operation, snapshot installation included.",
 ["schedules", "fault_sequences", "crash_points", "histories", "configurations"],
 "all fault schedules, configurations, log compaction states and message orders",
 TESTS + "the many 'exit to protect the system' branches are never approached.",
 [RS, RQ, RR, "src/peer.cxx"], [("fatal branches", "every state_mgr::system_exit call site"), ("peer lifetime", "peer::send_req")],
 ["state_mgr::system_exit", "exceptions out of process_req / handlers / timers", "AddressSanitizer/UBSan"])
prop("C13", "Membership changes are one at a time, complete and agreed",
 "Servers are added and removed one at a time: a leader never puts a configuration entry into its log while an earlier one of its log is uncommitted, consecutive configurations differ by at most one server, and all servers that committed the same configuration entry persist the same member list; a server added to a healthy cluster becomes a member holding every committed command, and a removed server leaves while the rest keep working and no longer count it; the guarantees about elections, committed and applied entries, terms and votes hold across all of this. A server to be added is new: its storage is empty and its id was never used (a removed server comes back under another id).",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "all sequences of add/remove requests (repeated, concurrent, for unknown or existing ids), slow or unreachable joiners, interleaved client commands and leader changes",
 "no existing test adds or removes a server.",
 [RQ, RR, RS], [("one-change guard", "config_changing_"), ("join", "handle_add_srv_req, sync_log_to_new_srv, handle_join_cluster_req, handle_log_sync_req"), ("leave", "handle_rm_srv_req, rm_srv_from_cluster, handle_leave_cluster_req"), ("apply", "raft_server::reconfigure")],
 ["conf entries in log_store", "state_mgr::save_config", "process_req responses"])
prop("C14", "Prevote never disturbs terms or votes and gates every election",
 "Handling a prevote request never changes the receiver's term, vote or role; a follower with prevote enabled turns candidate and raises its term on its own only after a majority, itself included, granted its prevote for its present term; prevote is granted only to candidates whose term and log are not behind, and in defensive mode only by a server that itself has not heard from a leader (or is just joining or leaving the cluster), so a server cut off from a healthy majority cannot depose its leader by rejoining.",
 ["schedules", "inputs", "histories", "configurations"],
 "all prevote requests, response orders, repeated and stale prevote rounds, partitions of minorities; defensive mode on and off",
 "the prevote test elects one leader in a healthy cluster.",
 [RS, RQ, RR, "include/srv_state.hxx"], [("prevote round", "raft_server::request_prevote, handle_prevote_resp"), ("prevote decision", "raft_server::handle_prevote_req")],
 ["prevote_response from process_req", "state_mgr::save_state", "vote_request messages"])
prop("C15", "Leadership lease: a leader without a responding quorum stops accepting",
 "A server reports itself as leader only while it is the leader of its current term and, when it has peers, a majority (itself included) has responded within twice the upper election timeout; outside that window is_leader() is false and client commands are not accepted, independently for every server in the process and at every later point in time; with a quorum responding, the leader reports true.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "all times at which responses stop and resume, all cluster sizes, several servers per process, repeated loss and recovery of the quorum",
 "no test partitions a leader or looks at is_leader() later.",
 [RS, RQ, "include/peer.hxx"], [("lease computation", "raft_server::is_leader"), ("client gate", "raft_server::handle_cli_req, replicate_log")],
 ["raft_server::is_leader", "client_request responses"])
FS = ["src/fs_log_store.cxx", "include/fs_log_store.hxx", "include/log_store.hxx"]
prop("C16", "The file log store behaves like an ordered list of entries",
 "For every sequence of append, overwrite (which drops everything after the overwritten index), range read, single read, term lookup, last-entry and compaction calls with legal arguments, and every in-memory buffer size, the file-based log store returns exactly what a plain list of (term, type, bytes) starting at the start index returns, with the documented results for out-of-range reads.",
 ["inputs", "histories", "configurations"],
 "all operation sequences, entry types and payload sizes (0 to beyond 32 KiB), buffer sizes of 1 and more or unlimited",
 "the log-store tests use one random sequence of fixed shape, overwrite only inside the buffered window and use few buffer sizes.",
 FS, [("file layout and index", "fs_log_store::append/write_at/log_entries/entry_at/term_at/compact"), ("read buffer", "log_store_buffer")],
 ["public fs_log_store API"])
prop("C17", "The file log store survives close and reopen with all entries",
 "After any sequence of operations, closing and reopening the store, with the same or another buffer size, or opening a copy of its files taken after the last completed operation without closing, yields the same start index, next slot, entries, terms and last entry as before, and the reopened store keeps behaving like a list.",
 ["histories", "crash_points", "configurations", "inputs"],
 "all operation sequences with reopen or file copy after any completed operation; any buffer size before and after",
 "the tests reopen once or twice at fixed points.",
 FS, [("flush per operation", "fs_log_store::append/write_at/compact/apply_pack"), ("load", "fs_log_store ctor, fill_buffer")],
 ["files of the store folder", "public fs_log_store API"])
prop("C18", "Packing log entries and applying the pack reproduces them",
 "Packing any count of entries from any retained index of one store and applying the pack to another store at that index makes the target hold exactly the packed entries at those indexes with everything before unchanged and nothing after them, across reopening; packing past the end packs only what exists.",
 ["inputs", "histories", "configurations"],
 "all source contents, indexes, counts, target lengths and buffer sizes, stores that were compacted before",
 "the pack test uses one fixed-shape sequence.",
 FS, [("pack format", "fs_log_store::pack, fs_log_store::apply_pack")], ["public fs_log_store API"])
prop("C19", "Log store reads stay correct while entries are appended",
 "While one thread appends (or overwrites or compacts), any number of threads reading indexes that remain in the log concurrently always get the exact entry or term stored at that index, a next slot and start index that never go backwards, and never an exception, a torn entry or a crash.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of readers with a writer, all buffer sizes",
 "the log-store tests are single-threaded.",
 FS, [("locks", "fs_log_store::store_lock_, log_store_buffer::lock_")], ["public fs_log_store API from several threads"])
prop("C20", "Buffers store and return exactly what was put, and never overrun",
 "For every buffer size (small or 32 KiB and beyond) and every sequence of puts, gets and position changes, reads return exactly the bytes and values written at that position, the position advances by exactly the size of each item, and a get or put that does not fit throws without touching the buffer or memory outside it.",
 ["inputs", "histories"],
 "all sizes around 0, 1, 0x7fff, 0x8000 and larger, all values, all operation orders, nested buffer copies and streams",
 "the buffer test writes and reads one sequence and two sizes.",
 ["src/buffer.cxx", "include/buffer.hxx"], [("block header and position", "buffer::alloc, put, get"), ("bounds checks", "buffer::get_*/put")],
 ["public buffer API", "AddressSanitizer"])
prop("C21", "Serialised objects deserialise to equal objects",
 "Server configuration, cluster configuration, snapshot descriptor, snapshot transfer request and log entry: serialising any value and deserialising the result, also when embedded after other data, gives an equal value with every field preserved, and re-serialising gives the same bytes; a truncated buffer is rejected with an exception or nil, never by reading past its end.",
 ["inputs"],
 "all ids, endpoints, server lists, indexes, terms, sizes, offsets and payloads",
 "the serialization test covers a few random values and never truncated input.",
 ["src/srv_config.cxx", "src/cluster_config.cxx", "src/snapshot.cxx", "src/snapshot_sync_req.cxx", "include/log_entry.hxx"],
 [("codecs", "serialize/deserialize of each class")], ["public serialize/deserialize"])
prop("C22", "The TCP transport delivers requests and responses unchanged, once",
 "Every request sent through a TCP client to a listening server reaches its handler with identical header fields and log entries, the caller's completion is invoked exactly once, with a response whose fields equal what the handler returned or with an error carrying the request, also when the peer is unreachable, goes away, or comes back later; requests on several connections, or sent while others are outstanding on the same client, do not mix, and a listener can be stopped at any moment.",
 ["inputs", "schedules", "fault_sequences"],
 "all message types, extreme field values, entry counts, types and sizes (0 to several hundred KiB), concurrent clients, servers that close or never listen",
 "the asio test only checks that a cluster elects a leader and replicates short strings.",
 ["src/asio_service.cxx", "include/asio_service.hxx", "include/rpc_cli.hxx"],
 [("framing", "asio_rpc_client::send/response_read, rpc_session::start/read_complete"), ("errors", "asio_rpc_client::connected/sent/response_read")],
 ["rpc_client::send completion", "raft_server::process_req as message handler"])
prop("C23", "Malformed network input is contained to its connection",
 "Whatever bytes arrive on a connection to a listener (random, truncated, with wrong sizes, types or entry lengths), the server never crashes, reads or writes outside its buffers or hangs: it drops that connection, hands only requests that are completely and consistently framed to the raft layer, and keeps serving other connections correctly.",
 ["inputs", "histories"],
 "all byte strings and all fragmentations of them on a connection, before, between and after valid requests",
 "no test sends malformed bytes.",
 ["src/asio_service.cxx", "src/buffer.cxx"], [("size checks", "rpc_session::start, read_complete"), ("bounds checks", "buffer::get*")],
 ["raw TCP socket to a listener", "AddressSanitizer/UBSan"])
prop("C24", "Scheduled tasks fire once, not early, and not after cancellation",
 "A task scheduled on the asio scheduler runs exactly once per schedule call, no earlier than its delay and eventually; rescheduling a pending task replaces the earlier deadline, a task cancelled before its time does not run, and it can be scheduled again afterwards (also from its own execution), all independently of other tasks, including tasks that throw.",
 ["inputs", "schedules", "histories"],
 "all sequences of schedule, reschedule and cancel over several tasks with arbitrary delays",
 "the scheduler test schedules one task and cancels one.",
 ["src/asio_service.cxx", "include/delayed_task.hxx", "include/timer_task.hxx", "include/delayed_task_scheduler.hxx"],
 [("timer per task", "asio_service::schedule, cancel_impl, _timer_handler_"), ("cancel flag", "delayed_task::execute/cancel/reset")],
 ["task executions with time stamps"])
prop("C25", "Log files hold every enabled line once, in order; stop always returns",
 "Every line logged at or above a logger's level before the service is stopped is in its file afterwards, complete, exactly once, in the order each thread logged it, tagged with its level and stamped with the UTC time it was logged, lines below the level never are, and stopping the service always returns, however often and whenever it is called from threads other than the service's own workers.",
 ["inputs", "schedules", "configurations"],
 "all levels, line contents and lengths, numbers of loggers and threads, moments of stopping relative to start-up",
 "the logger test writes four lines; the test harness has to pin the scheduler because stop() may hang.",
 ["src/asio_service.cxx", "include/logger.hxx"], [("buffer and flush", "fs_based_logger::write_log, flush"), ("stop handshake", "asio_service_impl::stop, flush_all_loggers")],
 ["log file contents", "return of asio_service::stop()"])
prop("C26", "An asynchronous result is delivered exactly once to everyone waiting",
 "However setting a result (or error), registering a handler and blocking reads are ordered or interleaved across threads, a registered handler runs exactly once with exactly that result and error, every blocking read returns that result or throws that error, never earlier and never blocking forever once it is set, and an asynchronous result created with a handler is not ready until it is set.",
 ["schedules", "inputs"],
 "all interleavings of one set, one handler registration and any number of blocking reads; results and errors",
 "the async tests run three fixed orders separated by sleeps.",
 ["include/async.hxx"], [("ready flag, lock and condition variable", "async_result::set_result/when_ready/get")],
 ["handler invocations", "async_result::get"])
prop("C27", "Destroying a server always completes and leaves nothing running",
 "Destroying a raft server object at any moment, idle, while it is applying entries, or with commits pending, always returns, after which it applies nothing more, none of its timers fires and no background thread of it touches it again.",
 ["schedules", "histories"],
 "all moments of destruction relative to the background apply thread, timers and pending commits; any role and cluster size",
 TESTS + "they destroy servers only after long idle sleeps.",
 [RS], [("stop handshake", "raft_server::~raft_server, commit_in_bg"), ("timer cancellation", "raft_server::~raft_server")],
 ["return of the destructor", "state_machine callbacks", "delayed_task executions"])
prop("C28", "A client is told 'accepted' exactly when the leader took its commands",
 "A client request, append or replicate call reports success only if the server then acting as leader of its current term appended all its commands contiguously, in order and with unchanged bytes to its log under that term, and reports failure only if that call put none of them into any log that server writes; non-leaders answer with the leader they know, and forwarded appends report the leader's verdict or the transport error, so with a reachable leader known a follower's append is accepted.",
 ["histories", "inputs", "schedules", "fault_sequences"],
 "all servers and roles a client may talk to, batch sizes, payloads, leader changes and lost forwarding messages",
 TESTS + "clients only talk to one stable leader and never compare verdicts with logs.",
 [RQ, RS], [("acceptance", "raft_server::handle_cli_req, replicate_log"), ("forwarding", "raft_server::append_entries, send_msg_to_leader")],
 ["process_req response", "append_entries async result", "replicate_log return value", "leader's log_store"])
prop("C29", "Role and catch-up events are announced truthfully and completely",
 "The event listener is told that the server became leader exactly once for each term it leads, before it sends entries under that term, told that it became follower when it gives up an announced leadership, and told that logs are caught up whenever the server has applied everything it knows to be committed, never while a command it knows to be committed is still to be applied.",
 ["schedules", "histories", "fault_sequences", "crash_points"],
 "all histories of elections, partitions, crashes, commits and applies of a cluster with fixed membership",
 TESTS + "no event listener is ever installed.",
 [RS, RQ, RR, "include/events.hxx"], [("leader event", "raft_server::become_leader"), ("follower event", "raft_server::become_follower"), ("catch-up event", "raft_server::commit_in_bg")],
 ["raft_event_listener::on_event"])
prop("C30", "Configured limits on batches, pieces, timeouts and heartbeats are kept",
 "A leader never sends more log entries in one append than the configured maximum, never more snapshot bytes in one piece than the configured block size (its default if 0), and never packs more entries for a joining server than the configured batch; a server waits for its leader a time between the configured bounds, drawn anew each time and not the same on all servers; heartbeats are scheduled at the configured interval, longer only while a peer does not answer and never so long that it reaches the shortest election timeout (unless the interval itself does).",
 ["configurations", "histories", "schedules", "inputs"],
 "all values of these parameters and all histories of client batches, lagging followers, snapshot transfers, joins and elections",
 TESTS + "with one set of parameters, and never look at the sizes or delays used.",
 [RS, RR, "include/raft_params.hxx", "src/peer.cxx", "include/peer.hxx"], [("append batch", "raft_server::create_append_entries_req"), ("snapshot pieces", "raft_server::create_sync_snapshot_req"), ("join batch", "raft_server::sync_log_to_new_srv"), ("timers", "raft_server::restart_election_timer, peer::slow_down_hb, resume_hb_speed")],
 ["requests sent through rpc_client", "log_store::pack", "delayed_task_scheduler::schedule delays"])
prop("C31", "A command's in-memory cookie stays with its command and its server",
 "A cookie given with a command on a leader is handed back with exactly that command, tag and object, to every callback of that server for it, as long as the log store keeps the entry object; no command comes with another command's cookie, and commands that were received from another server or given without a cookie come without one.",
 ["histories", "schedules", "fault_sequences"],
 "all histories of commands with and without cookies, leader changes, overwrites of such entries, rollbacks and re-submissions",
 "no existing test passes a cookie.",
 [RS, RQ, "include/log_entry.hxx"], [("attachment", "raft_server::replicate_log, log_entry::set_cookie"), ("hand-back", "commit_in_bg, handle_append_entries, handle_cli_req")],
 ["state_machine::commit / pre_commit / rollback"])
prop("C32", "A failed compaction of the file log store loses nothing",
 "When a file system call (truncating, removing, writing or opening a file) fails while the file-based log store compacts, compact() still succeeds or reports failure without throwing; if it reports failure, the store holds exactly the start index, next slot and entries it had before, also after reopening or when a copy of its files is opened, and keeps working.",
 ["fault_sequences", "histories", "inputs", "configurations"],
 "all store contents and compaction indexes, every single failing file system call of a compaction, any buffer size",
 "no existing test makes a file system call fail.",
 FS, [("backup and restore", "fs_log_store::compact")], ["public fs_log_store API", "files of the store folder"])
prop("C33", "A server can be used by several threads at once",
 "When requests of peers and clients, responses and lost messages, append_entries/add_srv/remove_srv/replicate_log/is_leader calls, timer firings and snapshot completions reach one server on different threads at any interleaving (together with its own apply thread), nothing crashes, deadlocks, throws or makes the server exit; every request gets its response, committed commands are applied in index order with the bytes in the log, and once idle none of them is left out.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "all interleavings of calls, messages, timers and snapshot completions over a server's threads, leading or following, any snapshot distance",
 "existing tests drive each server in a few fixed scenarios and let the operating system pick one interleaving.",
 [RS, RQ, RR], [("locking of all entry points", "raft_server (lock_, commit_lock_, rpc_clients_lock_)"), ("timer handlers", "raft_server::handle_election_timeout, handle_hb_timeout"), ("snapshot completion", "raft_server::on_snapshot_completed, snapshot_and_compact")], ["public raft_server API", "state_machine calls", "sent messages"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
