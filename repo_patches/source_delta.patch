From c5492baf8d7824b2b8f7c2343c1a063b3b8c57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:09 +0000
Subject: [PATCH 01/71] fix: commit by counting replicas only logs of the
 leader's own term

A leader committed logs of earlier terms as soon as a majority stored them;
a later leader can still overwrite those (Raft paper, figure 8).
---
 src/raft_server_resp_handlers.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index c1a4ab9..7830d9b 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -114,7 +114,15 @@ void raft_server::handle_append_entries_resp(resp_msg& resp)
         }
 
         std::sort(matched_indexes.begin(), matched_indexes.end(), std::greater<ulong>());
-        commit(matched_indexes[(peers_.size() + 1) / 2]);
+        ulong majority_idx = matched_indexes[(peers_.size() + 1) / 2];
+
+        // a log of an earlier term must not be committed by counting replicas, it's committed along with a log of
+        // current term
+        if (majority_idx <= quick_commit_idx_ || log_store_->term_at(majority_idx) == state_->get_term())
+        {
+            commit(majority_idx);
+        }
+
         need_to_catchup = p->clear_pending_commit() || resp.get_next_idx() < log_store_->next_slot();
     }
     else
-- 
2.43.0


From 413cf5a10e2131071bffde4e48edb95b6876c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:09 +0000
Subject: [PATCH 02/71] fix: forget the matched indexes of an earlier
 leadership when becoming leader

They may refer to logs that were overwritten in the meantime, so logs were
committed that no majority stores.
---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2cd053b..bfec783 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -439,6 +439,7 @@ void raft_server::become_leader()
         for (peer_itor it = peers_.begin(); it != peers_.end(); ++it)
         {
             it->second->set_next_log_idx(log_store_->next_slot());
+            it->second->set_matched_idx(0);
             it->second->set_snapshot_in_sync(nil_snp);
             it->second->set_free();
             enable_hb_for_peer(*(it->second));
-- 
2.43.0


From 209d5c9b4209fa29b904012c7a6f04abfc08fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:09 +0000
Subject: [PATCH 03/71] fix: ignore peer responses of earlier terms

A delayed response to a request of an earlier leadership was taken as an
answer to the current one and moved the matched index of the peer.
---
 src/raft_server_resp_handlers.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 7830d9b..09e9eb4 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -61,6 +61,13 @@ void raft_server::handle_peer_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>
         }
 
         // ignore the response that with lower term for safety
+        if (resp->get_term() < state_->get_term())
+        {
+            l_->info(sstrfmt("ignore an outdated response at term %llu v.s. current term %llu")
+                         .fmt(resp->get_term(), state_->get_term()));
+            return;
+        }
+
         switch (resp->get_type())
         {
             case msg_type::vote_response:
-- 
2.43.0


From 87381587677b298ff477ce33bae56cdf6b45c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:09 +0000
Subject: [PATCH 04/71] fix: a follower commits only logs it knows to match the
 leader's

The commit index of an AppendEntries request may exceed the logs covered by
the request, a stale log behind them was applied.
---
 src/raft_server_req_handlers.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 41d9891..479a61d 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -185,8 +185,11 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     }
 
     leader_ = req.get_src();
-    commit(req.get_commit_idx());
-    resp->accept(req.get_last_log_idx() + req.log_entries().size() + 1);
+
+    // only logs up to the last one of this request are known to be identical with leader's
+    ulong last_matched_idx = req.get_last_log_idx() + req.log_entries().size();
+    commit(std::min(req.get_commit_idx(), last_matched_idx));
+    resp->accept(last_matched_idx + 1);
     return resp;
 }
 
-- 
2.43.0


From 8c2f7b7d3112b240e86f5b90e30860bf21beca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:43 +0000
Subject: [PATCH 05/71] fix: compare candidates with the snapshot's term when
 the log store is empty

After a compaction of all logs last_entry() is the dummy entry of term zero, so
a server granted votes to candidates that miss committed logs.
---
 src/raft_server_req_handlers.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 479a61d..af43dd2 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -196,8 +196,9 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
 ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::vote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
+    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);
+    bool log_okay = req.get_last_log_term() > last_log_term ||
+                    (req.get_last_log_term() == last_log_term &&
                      log_store_->next_slot() - 1 <= req.get_last_log_idx());
     bool grant = req.get_term() == state_->get_term() && log_okay &&
                  (state_->get_voted_for() == req.get_src() || state_->get_voted_for() == -1);
@@ -214,8 +215,9 @@ ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 ptr<resp_msg> raft_server::handle_prevote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::prevote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
+    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);
+    bool log_okay = req.get_last_log_term() > last_log_term ||
+                    (req.get_last_log_term() == last_log_term &&
                      log_store_->next_slot() - 1 <= req.get_last_log_idx());
     bool grant = req.get_term() >= state_->get_term() && log_okay;
     if (ctx_->params_->defensive_prevote_)
-- 
2.43.0


From de29561cd2385460357de4a5b6b6db5bb42b6bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:43 +0000
Subject: [PATCH 06/71] fix: roll back every log that is dropped by an
 overwrite

write_at() drops all logs after the overwritten one, but only the first one was
rolled back, and a dropped configuration left the server with a configuration
change that never completes.
---
 src/raft_server_req_handlers.cxx | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index af43dd2..a3b05a5 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -137,20 +137,27 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
             }
         }
 
-        // dealing with overwrites
-        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        // the overwrite drops all logs starting from idx, revert them, the latest first
+        if (log_idx < req.log_entries().size())
         {
-            ptr<log_entry> old_entry(log_store_->entry_at(idx));
-            if (old_entry->get_val_type() == log_val_type::app_log)
-            {
-                state_machine_->rollback(idx, old_entry->get_buf(), old_entry->get_cookie());
-            }
-            else if (old_entry->get_val_type() == log_val_type::conf)
+            for (ulong old_idx = log_store_->next_slot(); old_idx-- > idx;)
             {
-                l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
-                config_changing_ = false;
+                ptr<log_entry> old_entry(log_store_->entry_at(old_idx));
+                if (old_entry->get_val_type() == log_val_type::app_log)
+                {
+                    state_machine_->rollback(old_idx, old_entry->get_buf(), old_entry->get_cookie());
+                }
+                else if (old_entry->get_val_type() == log_val_type::conf)
+                {
+                    l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
+                    config_changing_ = false;
+                }
             }
+        }
 
+        // dealing with overwrites
+        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        {
             ptr<log_entry> entry = req.log_entries().at(log_idx);
             log_store_->write_at(idx, entry);
             if (entry->get_val_type() == log_val_type::app_log)
-- 
2.43.0


From f70a1f7c64e4e0c056f27009959268af50db28bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:43 +0000
Subject: [PATCH 07/71] fix: replicate_log reports success and appends under
 the server's lock

It always returned false, and it read the term and appended without the lock, so
a log could be appended under a term the server no longer leads.
---
 src/raft_server.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index bfec783..21c7a02 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1085,6 +1085,12 @@ bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cooki
         return false;
     }
 
+    recur_lock(lock_);
+    if (role_ != srv_role::leader)
+    {
+        return false;
+    }
+
     ptr<log_entry> entry = cs_new<log_entry>(state_->get_term(), std::move(log));
     if (cookie)
     {
@@ -1092,10 +1098,6 @@ bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cooki
     }
 
     log_store_->append(entry);
-    {
-        recur_lock(lock_);
-        request_append_entries();
-    }
-
-    return false;
+    request_append_entries();
+    return true;
 }
-- 
2.43.0


From 70938533094149cc6950ab6c08df67c9ef3dc2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:43 +0000
Subject: [PATCH 08/71] fix: check the leadership lease on every call and for
 every server on its own

The time since the quorum's response was kept in a static variable that is shared
by all servers of the process and never checked again once it was small.
---
 src/raft_server.cxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 21c7a02..3b69284 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1053,10 +1053,8 @@ ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
 
 bool raft_server::is_leader() const
 {
-    static volatile int32 time_elasped_since_quorum_resp(std::numeric_limits<int32>::max());
     read_lock(peers_lock_);
-    if (role_ == srv_role::leader && peers_.size() > 0 &&
-        time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
+    if (role_ == srv_role::leader && peers_.size() > 0)
     {
         std::vector<time_point> peer_resp_times;
         for (auto& peer : peers_)
@@ -1065,10 +1063,9 @@ bool raft_server::is_leader() const
         }
 
         std::sort(peer_resp_times.begin(), peer_resp_times.end());
-        time_elasped_since_quorum_resp =
-            static_cast<int32>(std::chrono::duration_cast<std::chrono::milliseconds>(
-                                   system_clock::now() - peer_resp_times[peers_.size() / 2])
-                                   .count());
+        auto time_elasped_since_quorum_resp = std::chrono::duration_cast<std::chrono::milliseconds>(
+                                                  system_clock::now() - peer_resp_times[peers_.size() / 2])
+                                                  .count();
         if (time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
         {
             return false;
-- 
2.43.0


From 88e569c1a2acf3fc04fd238baa1e6e2845222994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:43 +0000
Subject: [PATCH 09/71] fix: keep the created snapshot with its size, compact
 only logs in store

The snapshot kept after creation had size zero, so the server shut down when it had
to send it to a peer; compacting below the start index threw, and no
further snapshot was ever created.
---
 src/raft_server.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 3b69284..a5c059d 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -626,8 +626,10 @@ void raft_server::on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr
             recur_lock(lock_);
             l_->debug("snapshot created, compact the log store");
 
-            last_snapshot_ = s;
-            if (s->get_last_log_idx() > (ulong)ctx_->params_->reserved_log_items_)
+            // the size of the snapshot is only known to the state machine
+            ptr<snapshot> created(state_machine_->last_snapshot());
+            last_snapshot_ = created && created->get_last_log_idx() >= s->get_last_log_idx() ? created : s;
+            if (s->get_last_log_idx() >= log_store_->start_index() + (ulong)ctx_->params_->reserved_log_items_)
             {
                 log_store_->compact(s->get_last_log_idx() - (ulong)ctx_->params_->reserved_log_items_);
             }
-- 
2.43.0


From 4e7f1ebe0d7a52c1f116bb82585d640b2bd48180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:18 +0000
Subject: [PATCH 10/71] fix: send a snapshot to every peer that needs compacted
 logs

For an empty peer the leader tried to read compacted logs and never contacted the
peer again; for a peer that needs the last compacted log the leader shut down
when the snapshot's index was another one because of reserved logs.
---
 src/raft_server.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index a5c059d..b248ef9 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -673,7 +673,14 @@ ptr<req_msg> raft_server::create_append_entries_req(peer& p)
     }
 
     // for syncing the snapshots, for starting_idx - 1, we can check with last snapshot
-    if (last_log_idx > 0 && last_log_idx < starting_idx - 1)
+    bool need_snapshot = last_log_idx < starting_idx - 1;
+    if (last_log_idx > 0 && last_log_idx == starting_idx - 1)
+    {
+        ptr<snapshot> last_snapshot(state_machine_->last_snapshot());
+        need_snapshot = !last_snapshot || last_snapshot->get_last_log_idx() != last_log_idx;
+    }
+
+    if (need_snapshot)
     {
         return create_sync_snapshot_req(p, last_log_idx, term, commit_idx);
     }
-- 
2.43.0


From 8811a26609b0528e7bbef37852cf2ac12abbadd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:18 +0000
Subject: [PATCH 11/71] fix: accept AppendEntries requests that refer to
 compacted logs

A delayed or repeated request whose previous log is already compacted made the
follower shut down or throw.
---
 src/raft_server_req_handlers.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index a3b05a5..e371e89 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -111,8 +111,10 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     // log_store_->next_slot() for the leader to quick jump to the index that might aligned
     ptr<resp_msg> resp(cs_new<resp_msg>(
         state_->get_term(), msg_type::append_entries_response, id_, req.get_src(), log_store_->next_slot()));
-    bool log_okay = req.get_last_log_idx() == 0 || (req.get_last_log_idx() < log_store_->next_slot() &&
-                                                    req.get_last_log_term() == term_for_log(req.get_last_log_idx()));
+    // Logs before start index are compacted, so they are committed and must be identical with leader's
+    bool log_okay = req.get_last_log_idx() < log_store_->start_index() ||
+                    (req.get_last_log_idx() < log_store_->next_slot() &&
+                     req.get_last_log_term() == term_for_log(req.get_last_log_idx()));
     if (req.get_term() < state_->get_term() || !log_okay)
     {
         return resp;
@@ -126,7 +128,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         size_t log_idx = 0;
         while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
         {
-            if (log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
+            if (idx < log_store_->start_index() ||
+                log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
             {
                 idx++;
                 log_idx++;
-- 
2.43.0


From 30e3b39849b70c6972436b49d6f41ca99fc67542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:18 +0000
Subject: [PATCH 12/71] fix: confirm a snapshot that is already applied

It was declined, so the leader kept sending it for ever when the response to the
last piece was lost.
---
 src/raft_server_req_handlers.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index e371e89..2c8698f 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -347,8 +347,11 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
     ptr<snapshot_sync_req> sync_req(snapshot_sync_req::deserialize(entries[0]->get_buf()));
     if (sync_req->get_snapshot().get_last_log_idx() <= sm_commit_index_)
     {
+        // this could be a retry for a snapshot that has been applied while the response is lost, there is nothing
+        // left to be transferred
         l_->warn(sstrfmt("received a snapshot (%llu) that is older than current log store")
                      .fmt(sync_req->get_snapshot().get_last_log_idx()));
+        resp->accept(sync_req->get_snapshot().size());
         return resp;
     }
 
-- 
2.43.0


From 388ddb63979789834987dbe14990701113cc5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:18 +0000
Subject: [PATCH 13/71] fix: drop logs that conflict with an installed snapshot

Logs of an earlier term behind the snapshot's index stayed in the log store as if
they followed the snapshot.
---
 src/raft_server_req_handlers.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 2c8698f..0ec1cfb 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -379,6 +379,15 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
             }
 
             l_->debug("sucessfully receive a snapshot from leader");
+            ulong snp_log_idx = req.get_snapshot().get_last_log_idx();
+            if (snp_log_idx >= log_store_->start_index() && snp_log_idx < log_store_->next_slot() &&
+                log_store_->term_at(snp_log_idx) != req.get_snapshot().get_last_log_term())
+            {
+                // the logs after the snapshot belong to another history, drop them by overwriting
+                ptr<log_entry> entry(cs_new<log_entry>(req.get_snapshot().get_last_log_term(), buffer::alloc(0)));
+                log_store_->write_at(snp_log_idx, entry);
+            }
+
             if (log_store_->compact(req.get_snapshot().get_last_log_idx()))
             {
                 // The state machine will not be able to commit anything before the snapshot is applied, so make this
-- 
2.43.0


From 33ddeb7fca6e334d8d87b9718964d54a8e307660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:18 +0000
Subject: [PATCH 14/71] fix: prevote goes on after lost responses and outdated
 terms

The election timer was not restarted after prevote requests were sent, so a server
waited for ever when a response was lost; a server with an outdated term was
denied for ever.
---
 src/raft_server.cxx               | 9 +++++++--
 src/raft_server_resp_handlers.cxx | 6 ++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index b248ef9..442176c 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -220,13 +220,15 @@ void raft_server::handle_election_timeout()
     {
         if (prevote_state_ && !prevote_state_->empty())
         {
-            l_->debug("Election timeout, but there is already a prevote ongoing, ignore this event");
+            l_->debug("Election timeout, the ongoing prevote is not completed in time, start a new one");
+            prevote_state_->reset();
         }
         else
         {
             l_->debug("Election timeout, start prevoting");
-            request_prevote();
         }
+
+        request_prevote();
     }
     else
     {
@@ -280,6 +282,9 @@ void raft_server::request_prevote()
 
     prevote_state_->inc_accepted_votes();
     prevote_state_->add_voted_server(id_);
+
+    // start another round if this one could not be completed due to lost messages
+    restart_election_timer();
     {
         read_lock(peers_lock_);
         for (peer_itor it = peers_.begin(); it != peers_.end(); ++it)
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 09e9eb4..8727328 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -255,6 +255,12 @@ void raft_server::handle_voting_resp(resp_msg& resp)
 
 void raft_server::handle_prevote_resp(resp_msg& resp)
 {
+    // with an outdated term, this server will never get enough votes
+    if (update_term(resp.get_term()))
+    {
+        return;
+    }
+
     if (!prevote_state_)
     {
         l_->info(sstrfmt("Prevote has completed, term received: %llu, current term %llu")
-- 
2.43.0


From 0442f3341bc97e48ac5b195784a839492c1f87b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:18 +0000
Subject: [PATCH 15/71] fix: end a prevote when the leader is heard again

The server kept granting prevotes in defensive mode although its leader works, and
could start an election with votes collected before.
---
 src/raft_server_req_handlers.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 0ec1cfb..0a9470f 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -101,6 +101,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         }
         else
         {
+            // the leader is alive, no prevote is needed any more
+            prevote_state_.reset();
             restart_election_timer();
         }
     }
@@ -326,6 +328,8 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
         }
         else
         {
+            // the leader is alive, no prevote is needed any more
+            prevote_state_.reset();
             restart_election_timer();
         }
     }
-- 
2.43.0


From 7a465dabd6f40e3822a12e847192ccfb64599eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:44 +0000
Subject: [PATCH 16/71] fix: don't append the initial config twice

A leader elected while the initial config of an earlier leader is in its log store but
not committed appended it again; a snapshot between both made the server shut
down.
---
 src/raft_server.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 442176c..1d03d06 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -451,7 +451,8 @@ void raft_server::become_leader()
         }
     }
 
-    if (config_->get_log_idx() == 0)
+    // the initial config may be in log store already but not committed yet
+    if (config_->get_log_idx() == 0 && !config_changing_)
     {
         config_->set_log_idx(log_store_->next_slot());
         bufptr conf_buf = config_->serialize();
-- 
2.43.0


From 577fce71e70cd891a5e75935aa245b5fde1c9c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:44 +0000
Subject: [PATCH 17/71] fix: don't count prevotes that were granted for an
 earlier term

A delayed prevote response of an earlier term was counted for the current prevote.
---
 src/raft_server.cxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 1d03d06..2f7e180 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -285,6 +285,17 @@ void raft_server::request_prevote()
 
     // start another round if this one could not be completed due to lost messages
     restart_election_timer();
+
+    // votes for an earlier term don't count
+    ulong term = state_->get_term();
+    rpc_handler handler = [this, term](ptr<resp_msg>& resp, const ptr<rpc_exception>& e)
+    {
+        recur_lock(lock_);
+        if (e || term == state_->get_term())
+        {
+            this->handle_ext_resp(resp, e);
+        }
+    };
     {
         read_lock(peers_lock_);
         for (peer_itor it = peers_.begin(); it != peers_.end(); ++it)
@@ -299,7 +310,7 @@ void raft_server::request_prevote()
                 quick_commit_idx_));
             l_->debug(sstrfmt("send %s to server %d with term %llu")
                           .fmt(__msg_type_str[req->get_type()], it->second->get_id(), state_->get_term()));
-            it->second->send_req(req, ex_resp_handler_);
+            it->second->send_req(req, handler);
         }
     }
 }
-- 
2.43.0


From 8e92c9b454a6fb3c7a0fd7ddb70b367feb3cbf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:10 +0000
Subject: [PATCH 18/71] fix: truncate the data file when the last log is
 overwritten by a shorter one

---
 src/fs_log_store.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index a19b2fb..7ecc936 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -333,8 +333,9 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
     ulong ndata_len = data_file_.tellp();
     ulong nidx_len = idx_file_.tellp();
     idx_file_.seekp(0, std::fstream::end);
-    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len)
-    { // new index length is less than current file size, truncate it
+    data_file_.seekp(0, std::fstream::end);
+    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len || static_cast<ulong>(data_file_.tellp()) > ndata_len)
+    { // new index or data length is less than current file size, truncate it
         std::string idx_path = log_folder_ + LOG_INDEX_FILE;
         std::string data_path = log_folder_ + LOG_DATA_FILE;
         idx_file_.close();
@@ -611,7 +612,7 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
     ulong data_pos = data_file_.tellp();
     idx_file_.seekp(0, std::fstream::end);
     data_file_.seekp(0, std::fstream::end);
-    if (idx_pos < static_cast<ulong>(idx_file_.tellp()))
+    if (idx_pos < static_cast<ulong>(idx_file_.tellp()) || data_pos < static_cast<ulong>(data_file_.tellp()))
     {
         std::string idx_path = log_folder_ + LOG_INDEX_FILE;
         std::string data_path = log_folder_ + LOG_DATA_FILE;
-- 
2.43.0


From 0efb1ea6d051b1e58d80c6637bcd7ae7eaae1934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:10 +0000
Subject: [PATCH 19/71] fix: drop the buffered logs when a log before the
 buffer is overwritten

---
 src/fs_log_store.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 7ecc936..36ce3c5 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -128,6 +128,9 @@ void log_store_buffer::trim(ulong start)
     write_lock(lock_);
     if (start < start_idx_)
     {
+        // everything in buffer is after start
+        buf_.clear();
+        start_idx_ = start;
         return;
     }
 
-- 
2.43.0


From a640e5851b135a78c57219ce5e25d7c3ac5bfe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:10 +0000
Subject: [PATCH 20/71] fix: don't return logs after the requested range

---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 36ce3c5..c7f8002 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -412,7 +412,7 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
             throw std::runtime_error("IO fails, data cannot be saved");
         }
 
-        lend = buffer_first_idx - start_idx_;
+        lend = std::min(lend, buffer_first_idx - start_idx_);
         idx_file_.seekg(lstart * sz_ulong);
         bufptr d_start_idx_buf(buffer::alloc(sz_ulong));
         idx_file_ >> *d_start_idx_buf;
-- 
2.43.0


From aa159cf9274f1b493a8d6528189f5345fd90d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:10 +0000
Subject: [PATCH 21/71] fix: check the bounds when reading a buffer from
 another one

---
 src/buffer.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.cxx b/src/buffer.cxx
index 50678e6..68de92e 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -245,6 +245,11 @@ void buffer::put(const std::string& str)
 void buffer::get(bufptr& dst)
 {
     size_t sz = dst->size() - dst->pos();
+    if (size() - pos() < sz)
+    {
+        throw std::overflow_error("insufficient buffer available to fill the other buffer");
+    }
+
     ::memcpy(dst->data(), data(), sz);
     __mv_fw_block(this, sz);
 }
-- 
2.43.0


From 6d58ac28c7eb555ca1b79808ae635aa4027cb2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:51 +0000
Subject: [PATCH 22/71] fix: invoke the handler of an async_result only once

---
 include/async.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/async.hxx b/include/async.hxx
index e03b0a2..b792945 100644
--- a/include/async.hxx
+++ b/include/async.hxx
@@ -50,12 +50,14 @@ public:
     template <typename _THandler>
     void when_ready(_THandler&& handler)
     {
+        bool ready = false;
         {
             std::lock_guard<std::mutex> guard(lock_);
             handler_ = std::forward<_THandler>(handler);
+            ready = has_result_;
         }
 
-        if (has_result_)
+        if (ready)
         {
             handler_(result_, err_);
         }
-- 
2.43.0


From aa2b54eefabb78502da902230b974d6f9fea36ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:51 +0000
Subject: [PATCH 23/71] fix: async_result::get waits until the result is set

---
 include/async.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/async.hxx b/include/async.hxx
index b792945..c73062a 100644
--- a/include/async.hxx
+++ b/include/async.hxx
@@ -99,7 +99,7 @@ public:
             throw err_;
         }
 
-        cv_.wait(lock);
+        cv_.wait(lock, [this] { return has_result_; });
         if (err_ == nullptr)
         {
             return result_;
-- 
2.43.0


From 6e06d89039afb1585449a9d93e0f440ee6e7f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:51 +0000
Subject: [PATCH 24/71] fix: an async_result with a handler has no result at
 the beginning

---
 include/async.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/async.hxx b/include/async.hxx
index c73062a..2739f2d 100644
--- a/include/async.hxx
+++ b/include/async.hxx
@@ -36,7 +36,7 @@ public:
     explicit async_result(T& result) : result_(result), err_(), has_result_(true), lock_(), cv_()
     {
     }
-    explicit async_result(handler_type& handler) : err_(), has_result_(true), handler_(handler), lock_(), cv_()
+    explicit async_result(handler_type& handler) : err_(), has_result_(false), handler_(handler), lock_(), cv_()
     {
     }
 
-- 
2.43.0


From 77aad0c5536cc1e407d1a3de954e95a81bcba6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:28 +0000
Subject: [PATCH 25/71] fix: read the log store and its buffer under the store
 lock

---
 src/fs_log_store.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index c7f8002..a5dd0ff 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -267,6 +267,7 @@ ulong fs_log_store::start_index() const
 
 ptr<log_entry> fs_log_store::last_entry() const
 {
+    recur_lock(store_lock_);
     ptr<log_entry> entry = buf_->last_entry();
     if (entry == nilptr)
     {
@@ -372,9 +373,9 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
 
 ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong end)
 {
+    recur_lock(store_lock_);
     ulong lstart(0), lend(0), good_end(0);
     {
-        recur_lock(store_lock_);
         if (start < start_idx_)
         {
             throw std::range_error("index out of range");
@@ -406,7 +407,6 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
     if (start < buffer_first_idx)
     {
         // in this case, we need to read from store file
-        recur_lock(store_lock_);
         if (!data_file_ || !idx_file_)
         {
             throw std::runtime_error("IO fails, data cannot be saved");
@@ -444,6 +444,7 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
 
 ptr<log_entry> fs_log_store::entry_at(ulong index)
 {
+    recur_lock(store_lock_);
     ptr<log_entry> entry = (*buf_)[index];
     if (entry)
     {
@@ -453,7 +454,6 @@ ptr<log_entry> fs_log_store::entry_at(ulong index)
     {
         // since we don't hit the buffer, so this must not be the last entry
         // (according to Assumption: buffer.last_index() == entries_in_store_ + start_idx_)
-        recur_lock(store_lock_);
         if (index < start_idx_)
         {
             throw std::range_error("index out of range");
@@ -486,13 +486,13 @@ ptr<log_entry> fs_log_store::entry_at(ulong index)
 
 ulong fs_log_store::term_at(ulong index)
 {
+    recur_lock(store_lock_);
     if (index >= buf_->first_idx() && index < buf_->last_idx())
     {
         return buf_->get_term(index);
     }
 
     {
-        recur_lock(store_lock_);
         if (index < start_idx_)
         {
             throw std::range_error("index out of range");
-- 
2.43.0


From 4952238231931f0017251a6ccf298822da55d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:36 +0000
Subject: [PATCH 26/71] fix: don't lose wake-ups of the committing thread

---
 src/raft_server.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2f7e180..a13eb3b 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -551,6 +551,8 @@ void raft_server::commit(ulong target_idx)
 
     if (log_store_->next_slot() - 1 > sm_commit_index_ && quick_commit_idx_ > sm_commit_index_)
     {
+        // the committing thread must not miss this between its check and its wait
+        auto_lock(commit_lock_);
         commit_cv_.notify_one();
     }
 }
@@ -921,7 +923,12 @@ void raft_server::commit_in_bg()
                 }
 
                 std::unique_lock<std::mutex> lock(commit_lock_);
-                commit_cv_.wait(lock);
+                if (!stopping_ &&
+                    (quick_commit_idx_ <= sm_commit_index_ || sm_commit_index_ >= log_store_->next_slot() - 1))
+                {
+                    commit_cv_.wait(lock);
+                }
+
                 if (stopping_)
                 {
                     lock.unlock();
-- 
2.43.0


From dabfc33201b04dcf58e97063ad5113b8940924bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:36 +0000
Subject: [PATCH 27/71] fix: always complete the destruction of a server

---
 include/raft_server.hxx |  1 +
 src/raft_server.cxx     | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index d9044fc..ce02d3f 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -123,6 +123,7 @@ private:
     bool config_changing_;
     bool catching_up_;
     bool stopping_;
+    bool ready_to_stop_;
     int32 steps_to_down_;
     std::atomic_bool snp_in_progress_;
     std::unique_ptr<context> ctx_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index a13eb3b..f17f286 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -56,6 +56,7 @@ raft_server::raft_server(context* ctx)
       config_changing_(false),
       catching_up_(false),
       stopping_(false),
+      ready_to_stop_(false),
       steps_to_down_(0),
       snp_in_progress_(),
       ctx_(ctx),
@@ -146,14 +147,19 @@ raft_server::raft_server(context* ctx)
 
 raft_server::~raft_server()
 {
+    {
+        auto_lock(commit_lock_);
+        stopping_ = true;
+        commit_cv_.notify_all();
+    }
+
+    {
+        // lock_ cannot be held here as the committing thread may need it before it stops
+        std::unique_lock<std::mutex> lock(stopping_lock_);
+        ready_to_stop_cv_.wait(lock, [this] { return ready_to_stop_; });
+    }
+
     recur_lock(lock_);
-    stopping_ = true;
-    std::unique_lock<std::mutex> commit_lock(commit_lock_);
-    commit_cv_.notify_all();
-    std::unique_lock<std::mutex> lock(stopping_lock_);
-    commit_lock.unlock();
-    commit_lock.release();
-    ready_to_stop_cv_.wait(lock);
     if (election_task_)
     {
         scheduler_->cancel(election_task_);
@@ -935,6 +941,7 @@ void raft_server::commit_in_bg()
                     lock.release();
                     {
                         auto_lock(stopping_lock_);
+                        ready_to_stop_ = true;
                         ready_to_stop_cv_.notify_all();
                     }
 
-- 
2.43.0


From 9975ad5517d776ea59a7936330ec7d06b2f9fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:38 +0000
Subject: [PATCH 28/71] fix: drop connections that send messages of unknown
 types

---
 src/asio_service.cxx | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index a8cebf1..6dc285a 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -212,6 +212,26 @@ public:
     }
 
 private:
+    static bool is_request(byte type_val)
+    {
+        switch (type_val)
+        {
+            case msg_type::vote_request:
+            case msg_type::append_entries_request:
+            case msg_type::client_request:
+            case msg_type::add_server_request:
+            case msg_type::remove_server_request:
+            case msg_type::sync_log_request:
+            case msg_type::join_cluster_request:
+            case msg_type::leave_cluster_request:
+            case msg_type::install_snapshot_request:
+            case msg_type::prevote_request:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     void read_log_data(const asio::error_code& err, size_t /* bytes_read */)
     {
         if (!err)
@@ -231,7 +251,15 @@ private:
         try
         {
             header_->pos(0);
-            msg_type t = (msg_type)header_->get_byte();
+            byte type_val = header_->get_byte();
+            if (!is_request(type_val))
+            {
+                l_->warn(lstrfmt("bad request type %d in the header, stop this session").fmt((int)type_val));
+                this->stop();
+                return;
+            }
+
+            msg_type t = (msg_type)type_val;
             int32 src = header_->get_int();
             int32 dst = header_->get_int();
             ulong term = header_->get_ulong();
-- 
2.43.0


From a0e25b480681407d037aeb61b26cd6ff931dbb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:38 +0000
Subject: [PATCH 29/71] fix: don't lose the wake-up of a stopping service

---
 src/asio_service.cxx | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 6dc285a..30aa762 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -120,6 +120,7 @@ private:
     std::mutex logger_list_lock_;
     std::list<ptr<impls::fs_based_logger>> loggers_;
     bool stopping_;
+    bool flushed_;
     std::mutex stopping_lock_;
     std::condition_variable stopping_cv_;
     friend asio_service;
@@ -608,6 +609,7 @@ asio_service_impl::asio_service_impl()
       logger_list_lock_(),
       loggers_(),
       stopping_(false),
+      flushed_(false),
       stopping_lock_(),
       stopping_cv_()
 {
@@ -651,11 +653,18 @@ void asio_service_impl::worker_entry()
 
 void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
 {
-    if (continue_.load() == 1)
+    bool stopping;
     {
-        log_flush_tm_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
-        log_flush_tm_.async_wait([self = shared_from_this()](asio::error_code err) mutable
-                                 { self->flush_all_loggers(err); });
+        // stop() sets the flag and cancels the timer under the same lock, so either it cancels the wait that starts
+        // here, or this flush is the last one
+        std::lock_guard<std::mutex> guard(stopping_lock_);
+        stopping = stopping_;
+        if (!stopping)
+        {
+            log_flush_tm_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
+            log_flush_tm_.async_wait([self = shared_from_this()](asio::error_code err) mutable
+                                     { self->flush_all_loggers(err); });
+        }
     }
 
     {
@@ -666,8 +675,10 @@ void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
         }
     }
 
-    if (stopping_)
+    if (stopping)
     {
+        std::lock_guard<std::mutex> guard(stopping_lock_);
+        flushed_ = true;
         stopping_cv_.notify_all();
     }
 }
@@ -680,9 +691,7 @@ void asio_service_impl::stop()
         std::unique_lock<std::mutex> lock(stopping_lock_);
         stopping_ = true;
         log_flush_tm_.cancel();
-        stopping_cv_.wait(lock);
-        lock.unlock();
-        lock.release();
+        stopping_cv_.wait(lock, [this]() { return flushed_; });
     }
 }
 
-- 
2.43.0


From d41a9cd5fff017350c42fad9dfa3fe329481618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:38 +0000
Subject: [PATCH 30/71] fix: don't run a task for a schedule that was replaced
 or cancelled

---
 src/asio_service.cxx | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 30aa762..35ea56f 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -588,15 +588,27 @@ private:
 using namespace cornerstone;
 using namespace cornerstone::impls;
 
+// the timer of a task and the number of the schedule or cancel call that was made for it last
+struct _task_timer_
+{
+    explicit _task_timer_(asio::io_service& io) : timer_(io), seq_(0)
+    {
+    }
+
+    asio::steady_timer timer_;
+    std::atomic<ulong> seq_;
+};
+
 void _free_timer_(void* ptr)
 {
-    asio::steady_timer* timer = static_cast<asio::steady_timer*>(ptr);
+    _task_timer_* timer = static_cast<_task_timer_*>(ptr);
     delete timer;
 }
 
-void _timer_handler_(ptr<delayed_task>& task, asio::error_code err)
+void _timer_handler_(ptr<delayed_task>& task, ulong seq, asio::error_code err)
 {
-    if (!err)
+    // a wait that has expired cannot be cancelled any more, don't run the task for a replaced or cancelled schedule
+    if (!err && static_cast<_task_timer_*>(task->get_impl_context())->seq_.load() == seq)
     {
         task->execute();
     }
@@ -757,21 +769,24 @@ void asio_service::schedule(ptr<delayed_task>& task, int32 milliseconds)
 {
     if (task->get_impl_context() == nilptr)
     {
-        task->set_impl_context(new asio::steady_timer(impl_->io_svc_), &_free_timer_);
+        task->set_impl_context(new _task_timer_(impl_->io_svc_), &_free_timer_);
     }
     // ensure it's not in cancelled state
     task->reset();
 
-    asio::steady_timer* timer = static_cast<asio::steady_timer*>(task->get_impl_context());
-    timer->expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::milliseconds(milliseconds)));
-    timer->async_wait([task](const asio::error_code err) mutable { _timer_handler_(task, err); });
+    _task_timer_* timer = static_cast<_task_timer_*>(task->get_impl_context());
+    ulong seq = ++timer->seq_;
+    timer->timer_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::milliseconds(milliseconds)));
+    timer->timer_.async_wait([task, seq](const asio::error_code err) mutable { _timer_handler_(task, seq, err); });
 }
 
 void asio_service::cancel_impl(ptr<delayed_task>& task)
 {
     if (task->get_impl_context() != nilptr)
     {
-        static_cast<asio::steady_timer*>(task->get_impl_context())->cancel();
+        _task_timer_* timer = static_cast<_task_timer_*>(task->get_impl_context());
+        ++timer->seq_;
+        timer->timer_.cancel();
     }
 }
 
-- 
2.43.0


From 9ad243dcadc4fdda436a8edc089a81e402633eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:15 +0000
Subject: [PATCH 31/71] fix: don't close a listener while it starts to accept

---
 src/asio_service.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 35ea56f..d2b0d58 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -342,6 +342,7 @@ public:
         : io_svc_(io),
           handler_(),
           acceptor_(io, asio::ip::tcp::endpoint(asio::ip::tcp::v4(), port)),
+          acceptor_lock_(),
           active_sessions_(),
           session_lock_(),
           l_(l)
@@ -351,6 +352,7 @@ public:
 
         public : virtual void stop() override
     {
+        auto_lock(acceptor_lock_);
         acceptor_.close();
     }
 
@@ -363,6 +365,8 @@ public:
 private:
     void start()
     {
+        // stop() may be called while a worker starts to accept the next connection
+        auto_lock(acceptor_lock_);
         if (!acceptor_.is_open())
         {
             return;
@@ -405,6 +409,7 @@ private:
     asio::io_service& io_svc_;
     ptr<msg_handler> handler_;
     asio::ip::tcp::acceptor acceptor_;
+    std::mutex acceptor_lock_;
     std::vector<ptr<rpc_session>> active_sessions_;
     std::mutex session_lock_;
     ptr<logger> l_;
-- 
2.43.0


From f0eb0822cfd1b3b45b69c3e0b32f2d311226700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:03 +0000
Subject: [PATCH 32/71] fix: drop connections that send log entries of unknown
 types

---
 src/asio_service.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index d2b0d58..bfeb9ee 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -274,8 +274,16 @@ private:
                 while (log_data_->size() > log_data_->pos())
                 {
                     ulong term = log_data_->get_ulong();
-                    log_val_type val_type = (log_val_type)log_data_->get_byte();
+                    byte val_type_val = log_data_->get_byte();
                     int32 val_size = log_data_->get_int();
+                    if (val_type_val < log_val_type::app_log || val_type_val > log_val_type::snp_sync_req)
+                    {
+                        l_->warn(lstrfmt("bad log entry type %d, stop this session").fmt((int)val_type_val));
+                        this->stop();
+                        return;
+                    }
+
+                    log_val_type val_type = (log_val_type)val_type_val;
                     bufptr buf(buffer::alloc((size_t)val_size));
                     log_data_->get(buf);
                     ptr<log_entry> entry(cs_new<log_entry>(term, std::move(buf), val_type));
-- 
2.43.0


From 6898a4d90f6bee60df2442163d65099c757256e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:34 +0000
Subject: [PATCH 33/71] fix: don't mix requests that are sent on one connection
 at the same time

---
 src/asio_service.cxx | 65 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 8 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index bfeb9ee..a1eb4f7 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -427,7 +427,7 @@ class asio_rpc_client : public rpc_client, public std::enable_shared_from_this<a
 {
 public:
     asio_rpc_client(asio::io_service& io_svc, std::string& host, std::string& port)
-        : resolver_(io_svc), socket_(io_svc), host_(host), port_(port)
+        : resolver_(io_svc), socket_(io_svc), host_(host), port_(port), requests_(), requests_lock_()
     {
     }
     virtual ~asio_rpc_client()
@@ -440,6 +440,54 @@ public:
 
 public:
     virtual void send(ptr<req_msg>& req, rpc_handler& when_done) __override__
+    {
+        {
+            auto_lock(requests_lock_);
+            requests_.emplace(req, when_done);
+            if (requests_.size() > 1)
+            {
+                // the connection is in use, this request is sent when the requests before it are completed
+                return;
+            }
+        }
+
+        start(req, when_done);
+    }
+
+private:
+    void complete(rpc_handler& when_done, ptr<resp_msg>& rsp, ptr<rpc_exception>& except)
+    {
+        try
+        {
+            when_done(rsp, except);
+        }
+        catch (...)
+        {
+            start_next();
+            throw;
+        }
+
+        start_next();
+    }
+
+    void start_next()
+    {
+        std::pair<ptr<req_msg>, rpc_handler> next;
+        {
+            auto_lock(requests_lock_);
+            requests_.pop();
+            if (requests_.empty())
+            {
+                return;
+            }
+
+            next = requests_.front();
+        }
+
+        start(next.first, next.second);
+    }
+
+    void start(ptr<req_msg>& req, rpc_handler& when_done)
     {
         ptr<asio_rpc_client> self(this->shared_from_this());
         if (!socket_.is_open())
@@ -462,7 +510,7 @@ public:
                         ptr<resp_msg> rsp;
                         ptr<rpc_exception> except(cs_new<rpc_exception>(
                             lstrfmt("failed to resolve host %s due to error %d").fmt(host_.c_str(), err.value()), req));
-                        when_done(rsp, except);
+                        complete(when_done, rsp, except);
                     }
                 });
         }
@@ -511,7 +559,6 @@ public:
         }
     }
 
-private:
     void connected(
         ptr<req_msg>& req,
         rpc_handler& when_done,
@@ -520,14 +567,14 @@ private:
     {
         if (!err)
         {
-            this->send(req, when_done);
+            this->start(req, when_done);
         }
         else
         {
             ptr<resp_msg> rsp;
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to connect to remote socket %d").fmt(err.value()), req));
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
     }
 
@@ -557,7 +604,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to send request to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
     }
 
@@ -578,7 +625,7 @@ private:
             byte accepted_val = resp_buf->get_byte();
             ptr<resp_msg> rsp(cs_new<resp_msg>(term, (msg_type)msg_type_val, src, dst, nxt_idx, accepted_val == 1));
             ptr<rpc_exception> except;
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
         else
         {
@@ -586,7 +633,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to read response to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
     }
 
@@ -595,6 +642,8 @@ private:
     asio::ip::tcp::socket socket_;
     std::string host_;
     std::string port_;
+    std::queue<std::pair<ptr<req_msg>, rpc_handler>> requests_;
+    std::mutex requests_lock_;
 };
 } // namespace cornerstone
 
-- 
2.43.0


From 637381264fe0e8b95126eb8e6cc796ae52b28081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:46 +0000
Subject: [PATCH 34/71] fix: connect again after a failed attempt

---
 src/asio_service.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index a1eb4f7..083b647 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -574,6 +574,7 @@ private:
             ptr<resp_msg> rsp;
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to connect to remote socket %d").fmt(err.value()), req));
+            socket_.close();
             complete(when_done, rsp, except);
         }
     }
-- 
2.43.0


From 0cd8ed5747401f80c239abc8b1d8ef9ca19dc6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:27 +0000
Subject: [PATCH 35/71] fix: keep the workers when a task or a completion
 throws

---
 src/asio_service.cxx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 083b647..7de34c7 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -716,13 +716,17 @@ void asio_service_impl::run()
 
 void asio_service_impl::worker_entry()
 {
-    try
+    for (;;)
     {
-        io_svc_.run();
-    }
-    catch (...)
-    {
-        // ignore all exceptions
+        try
+        {
+            io_svc_.run();
+            return;
+        }
+        catch (...)
+        {
+            // ignore all exceptions, the other tasks still need this worker
+        }
     }
 }
 
-- 
2.43.0


From aa1b279cf7c4c18cc6421cccbced4a3e51ef0cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:42 +0000
Subject: [PATCH 36/71] fix: keep a removed peer until its outstanding requests
 are completed

---
 include/peer.hxx | 2 +-
 src/peer.cxx     | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/peer.hxx b/include/peer.hxx
index 9418c0e..f43c7a8 100644
--- a/include/peer.hxx
+++ b/include/peer.hxx
@@ -23,7 +23,7 @@
 
 namespace cornerstone
 {
-class peer
+class peer : public std::enable_shared_from_this<peer>
 {
 public:
     peer(ptr<srv_config>& config, const context& ctx, timer_task<peer&>::executor& hb_exec)
diff --git a/src/peer.cxx b/src/peer.cxx
index c87f893..64b19b2 100644
--- a/src/peer.cxx
+++ b/src/peer.cxx
@@ -21,8 +21,10 @@ using namespace cornerstone;
 void peer::send_req(ptr<req_msg>& req, rpc_handler& handler)
 {
     ptr<rpc_result> pending = cs_new<rpc_result>(handler);
-    rpc_handler h = [this, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
-    { this->handle_rpc_result(req, pending, resp, ex); };
+    // the peer may be removed from cluster before the response is received
+    ptr<peer> self(shared_from_this());
+    rpc_handler h = [self, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
+    { self->handle_rpc_result(req, pending, resp, ex); };
     rpc_->send(req, h);
 }
 
-- 
2.43.0


From 0d466908998108adbe21b554683f66d19d85d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:05 +0000
Subject: [PATCH 37/71] fix: remember the position of a joining server that
 needs a snapshot

---
 src/raft_server_resp_handlers.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 8727328..c3831a3 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -331,6 +331,8 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
                 if (resp->get_accepted())
                 {
                     l_->debug("new server confirms it will join, start syncing logs to it");
+                    srv_to_join_->set_next_log_idx(resp->get_next_idx());
+                    srv_to_join_->set_matched_idx(resp->get_next_idx() - 1);
                     sync_log_to_new_srv(resp->get_next_idx());
                 }
                 else
-- 
2.43.0


From f50f09fb549ceb979b49b688fe8188df2adf50c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:31 +0000
Subject: [PATCH 38/71] fix: never go back to an older configuration

---
 include/raft_server.hxx |  1 +
 src/raft_server.cxx     | 36 ++++++++++++++++++++++++------------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index ce02d3f..c466008 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -109,6 +109,7 @@ private:
     void on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr<std::exception>& err);
     void on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req);
     ulong term_for_log(ulong log_idx);
+    bool has_conf_log(ulong start_idx);
     void commit_in_bg();
     ptr<async_result<bool>> send_msg_to_leader(ptr<req_msg>& req);
 
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index f17f286..8a6dc37 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -115,16 +115,7 @@ raft_server::raft_server(context* ctx)
      * - 1) + Majority(S0) > S0 => Vote(A) < Majority(S0)
      * -|
      */
-    for (ulong i = std::max(sm_commit_index_ + 1, log_store_->start_index()); i < log_store_->next_slot(); ++i)
-    {
-        ptr<log_entry> entry(log_store_->entry_at(i));
-        if (entry->get_val_type() == log_val_type::conf)
-        {
-            l_->info(sstrfmt("detect a configuration change that is not committed yet at index %llu").fmt(i));
-            config_changing_ = true;
-            break;
-        }
-    }
+    config_changing_ = has_conf_log(sm_commit_index_ + 1);
 
     std::list<ptr<srv_config>>& srvs(config_->get_servers());
     for (cluster_config::srv_itor it = srvs.begin(); it != srvs.end(); ++it)
@@ -914,6 +905,21 @@ ulong raft_server::term_for_log(ulong log_idx)
     return last_snapshot->get_last_log_term();
 }
 
+bool raft_server::has_conf_log(ulong start_idx)
+{
+    for (ulong i = std::max(start_idx, log_store_->start_index()); i < log_store_->next_slot(); ++i)
+    {
+        ptr<log_entry> entry(log_store_->entry_at(i));
+        if (entry->get_val_type() == log_val_type::conf)
+        {
+            l_->info(sstrfmt("detect a configuration change that is not committed yet at index %llu").fmt(i));
+            return true;
+        }
+    }
+
+    return false;
+}
+
 void raft_server::commit_in_bg()
 {
     while (true)
@@ -963,8 +969,14 @@ void raft_server::commit_in_bg()
                     log_entry->get_buf().pos(0);
                     ptr<cluster_config> new_conf = cluster_config::deserialize(log_entry->get_buf());
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
-                    ctx_->state_mgr_->save_config(*new_conf);
-                    config_changing_ = false;
+
+                    // logs could be committed again after a restart, never go back to an older config
+                    if (config_->get_log_idx() <= new_conf->get_log_idx())
+                    {
+                        ctx_->state_mgr_->save_config(*new_conf);
+                    }
+
+                    config_changing_ = has_conf_log(sm_commit_index_ + 1);
                     if (config_->get_log_idx() < new_conf->get_log_idx())
                     {
                         reconfigure(new_conf);
-- 
2.43.0


From 8317bc8275f20b45c6bf49b14d51988e14e8243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:21 +0000
Subject: [PATCH 39/71] fix: don't forget term and vote when joining a cluster

---
 src/raft_server_req_handlers.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 0a9470f..962747f 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -638,14 +638,17 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
         return resp;
     }
 
+    // the term never goes back and the vote for a term is never given twice
+    if (!update_term(req.get_term()))
+    {
+        become_follower();
+    }
+
     catching_up_ = true;
-    role_ = srv_role::follower;
+    election_completed_ = true;
     leader_ = req.get_src();
     sm_commit_index_ = 0;
     quick_commit_idx_ = 0;
-    state_->set_voted_for(-1);
-    state_->set_term(req.get_term());
-    ctx_->state_mgr_->save_state(*state_);
     reconfigure(cluster_config::deserialize(entries[0]->get_buf()));
     resp->accept(log_store_->next_slot());
     return resp;
-- 
2.43.0


From 33748a07f833f557ff2d7ce6dec843a2559f3eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:16 +0000
Subject: [PATCH 40/71] fix: ignore outdated responses while changing the
 cluster

---
 src/raft_server_resp_handlers.cxx | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index c3831a3..32bb38a 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -313,11 +313,25 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
                       resp->get_term(),
                       resp->get_next_idx()));
 
+    if (resp->get_type() != msg_type::prevote_response && role_ != srv_role::leader)
+    {
+        l_->info("this is not a leader any more, drop the response");
+        return;
+    }
+
+    // a response could be for a server that had been given up
+    bool from_srv_to_join = srv_to_join_ && srv_to_join_->get_id() == resp->get_src();
     switch (resp->get_type())
     {
         case msg_type::sync_log_response:
-            if (srv_to_join_)
+            if (from_srv_to_join)
             {
+                if (!resp->get_accepted())
+                {
+                    l_->info("new server doesn't accept the logs, give up");
+                    return;
+                }
+
                 // we are reusing heartbeat interval value to indicate when to stop retry
                 srv_to_join_->resume_hb_speed();
                 srv_to_join_->set_next_log_idx(resp->get_next_idx());
@@ -326,7 +340,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             }
             break;
         case msg_type::join_cluster_response:
-            if (srv_to_join_)
+            if (from_srv_to_join)
             {
                 if (resp->get_accepted())
                 {
@@ -357,7 +371,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             break;
         case msg_type::install_snapshot_response:
         {
-            if (!srv_to_join_)
+            if (!from_srv_to_join)
             {
                 l_->info("no server to join, the response must be very old.");
                 return;
@@ -372,9 +386,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             ptr<snapshot_sync_ctx> sync_ctx = srv_to_join_->get_snapshot_sync_ctx();
             if (sync_ctx == nilptr)
             {
-                l_->err("Bug! SnapshotSyncContext must not be null");
-                ctx_->state_mgr_->system_exit(-1);
-                ::exit(-1);
+                l_->info("no snapshot sync context for this server, the response must be very old.");
                 return;
             }
 
-- 
2.43.0


From 34b9e605b4827aa3e03818c4d67718a1cd696be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:16 +0000
Subject: [PATCH 41/71] fix: only one configuration change at a time

---
 src/raft_server_req_handlers.cxx  | 30 ++++++++++++++++++++++++++++++
 src/raft_server_resp_handlers.cxx | 15 +++++++++++++--
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 962747f..d4cedf5 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -440,6 +440,13 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
 
 void raft_server::on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req)
 {
+    recur_lock(lock_);
+    if (role_ != srv_role::leader || req->get_term() != state_->get_term())
+    {
+        l_->info("this is not the leader that sent the request any more, will not retry");
+        return;
+    }
+
     l_->debug(sstrfmt("retry the request %s for %d").fmt(__msg_type_str[req->get_type()], p->get_id()));
     p->send_req(req, ex_resp_handler_);
 }
@@ -568,6 +575,23 @@ void raft_server::sync_log_to_new_srv(ulong start_idx)
 {
     // only sync committed logs
     int32 gap = (int32)(quick_commit_idx_ - start_idx);
+    if (gap < ctx_->params_->log_sync_stop_gap_ && config_changing_)
+    {
+        l_->info("previous config has not committed yet, put the new server into cluster later");
+        ptr<peer> p(srv_to_join_);
+        timer_task<void>::executor exec = [this, p, start_idx]()
+        {
+            recur_lock(lock_);
+            if (role_ == srv_role::leader && srv_to_join_ == p)
+            {
+                sync_log_to_new_srv(start_idx);
+            }
+        };
+        ptr<delayed_task> task(cs_new<timer_task<void>>(exec));
+        scheduler_->schedule(task, ctx_->params_->heart_beat_interval_);
+        return;
+    }
+
     if (gap < ctx_->params_->log_sync_stop_gap_)
     {
         l_->info(lstrfmt("LogSync is done for server %d with log gap %d, now put the server into cluster")
@@ -668,6 +692,12 @@ ptr<resp_msg> raft_server::handle_leave_cluster_req(req_msg& req)
 
 void raft_server::rm_srv_from_cluster(int32 srv_id)
 {
+    if (config_changing_ || !config_->get_server(srv_id))
+    {
+        l_->info("previous config has not committed yet or the server has been removed, stop proceeding");
+        return;
+    }
+
     ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());
     for (cluster_config::const_srv_itor it = config_->get_servers().begin(); it != config_->get_servers().end(); ++it)
     {
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 32bb38a..2e06b19 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -437,17 +437,29 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 p = pit->second;
             }
         }
-        else
+        else if (srv_to_join_ && srv_to_join_->get_id() == req->get_dst())
         {
             p = srv_to_join_;
         }
 
+        if (role_ != srv_role::leader)
+        {
+            l_->info("this is not a leader any more, will not retry");
+            return;
+        }
+
         if (p != nilptr)
         {
             if (p->get_current_hb_interval() >= ctx_->params_->max_hb_interval())
             {
                 if (req->get_type() == msg_type::leave_cluster_request)
                 {
+                    if (config_changing_)
+                    {
+                        l_->info("previous config has not committed yet, stop removing the server");
+                        return;
+                    }
+
                     l_->info(lstrfmt("rpc failed again for the removing server (%d), will remove this server directly")
                                  .fmt(p->get_id()));
 
@@ -483,7 +495,6 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 {
                     l_->info(lstrfmt("rpc failed again for the new coming server (%d), will stop retry for this server")
                                  .fmt(p->get_id()));
-                    config_changing_ = false;
                     srv_to_join_.reset();
                 }
             }
-- 
2.43.0


From 3df3f7b3091c6077042cca6535b185570423e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:51 +0000
Subject: [PATCH 42/71] fix: a server that joins by a snapshot is a member

---
 src/raft_server_req_handlers.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index d4cedf5..2a388ec 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -409,6 +409,12 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
 
                 reconfigure(req.get_snapshot().get_last_config());
                 ctx_->state_mgr_->save_config(*config_);
+                if (catching_up_ && config_->get_server(id_) != nilptr)
+                {
+                    l_->info("this server is committed as one of cluster members");
+                    catching_up_ = false;
+                }
+
                 sm_commit_index_ = req.get_snapshot().get_last_log_idx();
                 quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
                 ctx_->state_mgr_->save_state(*state_);
-- 
2.43.0


From 886236dee9020a8bd3e885dbcf70bdc2d8c6bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:25 +0000
Subject: [PATCH 43/71] fix: a server that is not a member must not be elected

---
 src/raft_server.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 8a6dc37..35e4a84 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -206,6 +206,14 @@ void raft_server::handle_election_timeout()
         return;
     }
 
+    if (!config_->get_server(id_))
+    {
+        // only a member of the cluster could be elected
+        l_->info("election timeout while this server is not a member of the cluster, ignore it.");
+        restart_election_timer();
+        return;
+    }
+
     if (role_ == srv_role::leader)
     {
         l_->err("A leader should never encounter election timeout, illegal application state, stop the application");
-- 
2.43.0


From 29ea364118f06a45542c0f878acf3dd2c49a8fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:36 +0000
Subject: [PATCH 44/71] fix: don't create snapshots while catching up with a
 cluster

---
 src/raft_server.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 35e4a84..dfa2da9 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -571,6 +571,12 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
         return;
     }
 
+    if (catching_up_)
+    {
+        // the current config is the one of the cluster, logs for the configs at this index may not be here yet
+        return;
+    }
+
     bool snapshot_in_action = false;
     try
     {
-- 
2.43.0


From f27ff54f0614d1dcf6383c5dd2682ddee87e99d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:29 +0000
Subject: [PATCH 45/71] fix: don't drop logs for a retried log sync request

---
 src/raft_server_req_handlers.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 2a388ec..f571375 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -571,6 +571,13 @@ ptr<resp_msg> raft_server::handle_log_sync_req(req_msg& req)
         return resp;
     }
 
+    if (req.get_last_log_idx() + 1 != log_store_->next_slot())
+    {
+        l_->info("receive a retried LogSyncRequest, will continue from the end of current logs");
+        resp->accept(log_store_->next_slot());
+        return resp;
+    }
+
     log_store_->apply_pack(req.get_last_log_idx() + 1, entries[0]->get_buf());
     commit(log_store_->next_slot() - 1);
     resp->accept(log_store_->next_slot());
-- 
2.43.0


From c71c7e25869c2fd6a7551842e102b045033a5ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:13 +0000
Subject: [PATCH 46/71] fix: ignore outdated requests to join a cluster

A request to join that is retried or delayed could reach a server that has
become a member in the meantime, which then forgot its commit index and
went back to the configuration of the request.
---
 src/raft_server_req_handlers.cxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index f571375..b1b6503 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -453,6 +453,12 @@ void raft_server::on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req)
         return;
     }
 
+    if (req->get_type() != msg_type::leave_cluster_request && p != srv_to_join_)
+    {
+        l_->info("the new server has joined or has been given up, will not retry");
+        return;
+    }
+
     l_->debug(sstrfmt("retry the request %s for %d").fmt(__msg_type_str[req->get_type()], p->get_id()));
     p->send_req(req, ex_resp_handler_);
 }
@@ -675,6 +681,13 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
         return resp;
     }
 
+    ptr<cluster_config> conf(cluster_config::deserialize(entries[0]->get_buf()));
+    if (config_->get_log_idx() > conf->get_log_idx() && config_->get_server(id_) != nilptr)
+    {
+        l_->info("this server has joined the cluster, the request is outdated");
+        return resp;
+    }
+
     // the term never goes back and the vote for a term is never given twice
     if (!update_term(req.get_term()))
     {
@@ -686,7 +699,7 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
     leader_ = req.get_src();
     sm_commit_index_ = 0;
     quick_commit_idx_ = 0;
-    reconfigure(cluster_config::deserialize(entries[0]->get_buf()));
+    reconfigure(conf);
     resp->accept(log_store_->next_slot());
     return resp;
 }
-- 
2.43.0


From 5aeefcc68bcf2cbabf60e3c98c1f9bfeab3b77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:13 +0000
Subject: [PATCH 47/71] fix: a leader that is gone cannot ask a server to leave

A server that was asked to leave never takes part in an election actively
until it goes down, while the vote requests of the other servers keep it
from going down. When the leader crashes before it removes the server, and
this server has the logs the others don't have, no leader could be elected
any more. A request of a leader of an earlier term is declined now.
---
 src/raft_server_req_handlers.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index b1b6503..fb73f4e 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -40,11 +40,16 @@ ptr<resp_msg> raft_server::process_req(req_msg& req)
             req.get_type() == msg_type::install_snapshot_request)
         {
             // we allow the server to be continue after term updated to save a round message
-            update_term(req.get_term());
+            bool new_term = update_term(req.get_term());
 
             // Reset stepping down value to prevent this server goes down when leader crashes after sending a
             // LeaveClusterRequest
-            if (steps_to_down_ > 0)
+            if (new_term)
+            {
+                // the leader that asked this server to leave is gone, this server is still required for elections
+                steps_to_down_ = 0;
+            }
+            else if (steps_to_down_ > 0)
             {
                 steps_to_down_ = 2;
             }
@@ -707,7 +712,7 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
 ptr<resp_msg> raft_server::handle_leave_cluster_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::leave_cluster_response, id_, req.get_src()));
-    if (!config_changing_)
+    if (!config_changing_ && role_ != srv_role::leader && req.get_term() >= state_->get_term())
     {
         steps_to_down_ = 2;
         resp->accept(log_store_->next_slot());
-- 
2.43.0


From 3a806fe061cf58dfcbcdd5ff402cb47f98df7c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:17 +0000
Subject: [PATCH 48/71] fix: a configuration that is covered by a snapshot is
 committed

A server with an uncommitted configuration in its log that gets a snapshot
which covers this log refused all further configuration changes once it
became leader.
---
 src/raft_server_req_handlers.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index fb73f4e..9bc5c24 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -422,6 +422,7 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
 
                 sm_commit_index_ = req.get_snapshot().get_last_log_idx();
                 quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
+                config_changing_ = has_conf_log(sm_commit_index_ + 1);
                 ctx_->state_mgr_->save_state(*state_);
                 last_snapshot_ = cs_new<snapshot>(
                     req.get_snapshot().get_last_log_idx(),
-- 
2.43.0


From 9767a1b8aec69eef28cb810a88ac419d935ed283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:58 +0000
Subject: [PATCH 49/71] fix: don't deny prevotes for ever while joining a
 cluster

In defensive mode a prevote is granted only by servers that are prevoting
themselves, which a server that is joining or leaving never does, so that
no leader could be elected any more when its vote is required.
---
 src/raft_server_req_handlers.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 9bc5c24..9d6eb90 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -239,8 +239,10 @@ ptr<resp_msg> raft_server::handle_prevote_req(req_msg& req)
     bool grant = req.get_term() >= state_->get_term() && log_okay;
     if (ctx_->params_->defensive_prevote_)
     {
-        // In defensive mode, server will deny the prevote when it's operating well.
-        grant = grant && prevote_state_;
+        // In defensive mode, server will deny the prevote when it's operating well. A server that doesn't start a
+        // prevote by itself cannot tell
+        bool passive = catching_up_ || steps_to_down_ > 0 || !config_->get_server(id_);
+        grant = grant && (prevote_state_ || passive);
     }
 
     if (grant)
-- 
2.43.0


From 9c873067a2d9d7b3a79ab8336fc6ae2e45f474eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:25 +0000
Subject: [PATCH 50/71] fix: start the election timer when a new server becomes
 a member

The election timer is not restarted while a server is joining, when it
expired before the server became a member and the leader was gone then, the
server never took part in an election.
---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index dfa2da9..0a5e963 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1000,6 +1000,7 @@ void raft_server::commit_in_bg()
                     {
                         l_->info("this server is committed as one of cluster members");
                         catching_up_ = false;
+                        restart_election_timer();
                     }
                 }
 
-- 
2.43.0


From 499e54583d600bd4655d660c5cb95f8849ed38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:55 +0000
Subject: [PATCH 51/71] fix: don't accept a config change before the previous
 one is in effect

A config takes effect when it's committed, so a server could hold two config
changes that are not in effect yet. If it was elected by the members of the
outdated config, two leaders could commit different logs, as a majority of
that config may share no server with a majority of the current one.
---
 include/raft_server.hxx          |  2 +-
 src/raft_server.cxx              | 12 ++++++++----
 src/raft_server_req_handlers.cxx | 31 ++++++++++++++++++++++++-------
 3 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index c466008..1c6f08d 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -109,7 +109,7 @@ private:
     void on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr<std::exception>& err);
     void on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req);
     ulong term_for_log(ulong log_idx);
-    bool has_conf_log(ulong start_idx);
+    bool has_conf_log(ulong start_idx, ulong end_idx);
     void commit_in_bg();
     ptr<async_result<bool>> send_msg_to_leader(ptr<req_msg>& req);
 
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 0a5e963..c9b3e7f 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -115,7 +115,11 @@ raft_server::raft_server(context* ctx)
      * - 1) + Majority(S0) > S0 => Vote(A) < Majority(S0)
      * -|
      */
-    config_changing_ = has_conf_log(sm_commit_index_ + 1);
+    config_changing_ = has_conf_log(sm_commit_index_ + 1, log_store_->next_slot());
+
+    // only a committed config is saved, so logs up to it are committed
+    quick_commit_idx_ =
+        std::max<ulong>(quick_commit_idx_, std::min(config_->get_log_idx(), log_store_->next_slot() - 1));
 
     std::list<ptr<srv_config>>& srvs(config_->get_servers());
     for (cluster_config::srv_itor it = srvs.begin(); it != srvs.end(); ++it)
@@ -919,9 +923,9 @@ ulong raft_server::term_for_log(ulong log_idx)
     return last_snapshot->get_last_log_term();
 }
 
-bool raft_server::has_conf_log(ulong start_idx)
+bool raft_server::has_conf_log(ulong start_idx, ulong end_idx)
 {
-    for (ulong i = std::max(start_idx, log_store_->start_index()); i < log_store_->next_slot(); ++i)
+    for (ulong i = std::max(start_idx, log_store_->start_index()); i < end_idx; ++i)
     {
         ptr<log_entry> entry(log_store_->entry_at(i));
         if (entry->get_val_type() == log_val_type::conf)
@@ -990,7 +994,7 @@ void raft_server::commit_in_bg()
                         ctx_->state_mgr_->save_config(*new_conf);
                     }
 
-                    config_changing_ = has_conf_log(sm_commit_index_ + 1);
+                    config_changing_ = has_conf_log(sm_commit_index_ + 1, log_store_->next_slot());
                     if (config_->get_log_idx() < new_conf->get_log_idx())
                     {
                         reconfigure(new_conf);
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 9d6eb90..f2de316 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -128,12 +128,13 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     }
 
     // follower & log is okay
-    if (req.log_entries().size() > 0)
+    size_t log_cnt = req.log_entries().size();
+    if (log_cnt > 0)
     {
         // write logs to store, start from overlapped logs
         ulong idx = req.get_last_log_idx() + 1;
         size_t log_idx = 0;
-        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        while (idx < log_store_->next_slot() && log_idx < log_cnt)
         {
             if (idx < log_store_->start_index() ||
                 log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
@@ -147,8 +148,24 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
             }
         }
 
+        // a config change is not accepted until the previous one is in effect, otherwise this server may be elected
+        // by the members of an outdated config, which may share no server with a majority of the current one
+        bool conf_pending = config_changing_ && has_conf_log(config_->get_log_idx() + 1, idx);
+        for (size_t i = log_idx; i < log_cnt; ++i)
+        {
+            if (req.log_entries().at(i)->get_val_type() == log_val_type::conf)
+            {
+                if (conf_pending)
+                {
+                    log_cnt = i;
+                }
+
+                conf_pending = true;
+            }
+        }
+
         // the overwrite drops all logs starting from idx, revert them, the latest first
-        if (log_idx < req.log_entries().size())
+        if (log_idx < log_cnt)
         {
             for (ulong old_idx = log_store_->next_slot(); old_idx-- > idx;)
             {
@@ -166,7 +183,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         }
 
         // dealing with overwrites
-        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        while (idx < log_store_->next_slot() && log_idx < log_cnt)
         {
             ptr<log_entry> entry = req.log_entries().at(log_idx);
             log_store_->write_at(idx, entry);
@@ -185,7 +202,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         }
 
         // append new log entries
-        while (log_idx < req.log_entries().size())
+        while (log_idx < log_cnt)
         {
             ptr<log_entry> entry = req.log_entries().at(log_idx++);
             ulong idx_for_entry = log_store_->append(entry);
@@ -204,7 +221,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     leader_ = req.get_src();
 
     // only logs up to the last one of this request are known to be identical with leader's
-    ulong last_matched_idx = req.get_last_log_idx() + req.log_entries().size();
+    ulong last_matched_idx = req.get_last_log_idx() + log_cnt;
     commit(std::min(req.get_commit_idx(), last_matched_idx));
     resp->accept(last_matched_idx + 1);
     return resp;
@@ -424,7 +441,7 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
 
                 sm_commit_index_ = req.get_snapshot().get_last_log_idx();
                 quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
-                config_changing_ = has_conf_log(sm_commit_index_ + 1);
+                config_changing_ = has_conf_log(sm_commit_index_ + 1, log_store_->next_slot());
                 ctx_->state_mgr_->save_state(*state_);
                 last_snapshot_ = cs_new<snapshot>(
                     req.get_snapshot().get_last_log_idx(),
-- 
2.43.0


From ad4ff93d4a35c3c7f3a65b101cfcfb3c00a1f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:33 +0000
Subject: [PATCH 52/71] fix: a joining server declines snapshots of outdated
 leaders

The blocks of the snapshots of two leaders were mixed up when one of them was
outdated.
---
 src/raft_server_req_handlers.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index f2de316..1a7b93b 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -359,7 +359,7 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
     }
 
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::install_snapshot_response, id_, req.get_src()));
-    if (!catching_up_ && req.get_term() < state_->get_term())
+    if (req.get_term() < state_->get_term())
     {
         l_->info("received an install snapshot request which has lower term than this server, decline the request");
         return resp;
-- 
2.43.0


From 3659fdc2d762367aa00c306edf40dcab74f4a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 53/71] fix: a candidate doesn't deny prevotes in defensive
 mode

A candidate that cannot win the election, as it lacks some logs, denied the
prevotes of the server that could win it, so that there was no leader any
more if both are required for a majority.
---
 src/raft_server_req_handlers.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 1a7b93b..d39eeb6 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -257,9 +257,9 @@ ptr<resp_msg> raft_server::handle_prevote_req(req_msg& req)
     if (ctx_->params_->defensive_prevote_)
     {
         // In defensive mode, server will deny the prevote when it's operating well. A server that doesn't start a
-        // prevote by itself cannot tell
+        // prevote by itself cannot tell, while a candidate is obviously not
         bool passive = catching_up_ || steps_to_down_ > 0 || !config_->get_server(id_);
-        grant = grant && (prevote_state_ || passive);
+        grant = grant && (prevote_state_ || passive || role_ == srv_role::candidate);
     }
 
     if (grant)
-- 
2.43.0


From d9c1f402e0c4ad8c5aef4ef896ea44e258e974fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:49 +0000
Subject: [PATCH 54/71] fix: installing a snapshot must not pull the logs away
 from the thread applying them

A follower that was still applying logs when the last piece of a snapshot
arrived compacted the logs under the committing thread: the thread failed to
read the log it was going to apply (and shut the server down), or applied a
log after the snapshot that already included it.
---
 include/raft_server.hxx          |  1 +
 src/raft_server.cxx              | 19 ++++++++++++++++---
 src/raft_server_req_handlers.cxx | 13 +++++++++++++
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 1c6f08d..55a13d0 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -123,6 +123,7 @@ private:
     bool election_completed_;
     bool config_changing_;
     bool catching_up_;
+    bool applying_;
     bool stopping_;
     bool ready_to_stop_;
     int32 steps_to_down_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index c9b3e7f..834e6d8 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -55,6 +55,7 @@ raft_server::raft_server(context* ctx)
       election_completed_(true),
       config_changing_(false),
       catching_up_(false),
+      applying_(false),
       stopping_(false),
       ready_to_stop_(false),
       steps_to_down_(0),
@@ -973,10 +974,22 @@ void raft_server::commit_in_bg()
                 }
             }
 
-            while (sm_commit_index_ < quick_commit_idx_ && sm_commit_index_ < log_store_->next_slot() - 1)
+            while (true)
             {
-                sm_commit_index_ += 1;
-                ptr<log_entry> log_entry(log_store_->entry_at(sm_commit_index_));
+                ptr<log_entry> log_entry;
+                {
+                    // logs are not replaced by a snapshot from leader while one of them is being applied
+                    auto_lock(commit_lock_);
+                    applying_ = sm_commit_index_ < quick_commit_idx_ && sm_commit_index_ < log_store_->next_slot() - 1;
+                    if (!applying_)
+                    {
+                        break;
+                    }
+
+                    sm_commit_index_ += 1;
+                    log_entry = log_store_->entry_at(sm_commit_index_);
+                }
+
                 if (log_entry->get_val_type() == log_val_type::app_log)
                 {
                     state_machine_->commit(sm_commit_index_, log_entry->get_buf(), log_entry->get_cookie());
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index d39eeb6..872e3ec 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -406,6 +406,19 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
                 ::exit(-1);
             }
 
+            {
+                // the committing thread may be applying a log to the state machine, it has nothing to apply afterwards
+                // until the snapshot is applied
+                auto_lock(commit_lock_);
+                if (applying_)
+                {
+                    l_->info("a log is being applied, will ask the leader to retry");
+                    return false;
+                }
+
+                quick_commit_idx_ = sm_commit_index_;
+            }
+
             l_->debug("sucessfully receive a snapshot from leader");
             ulong snp_log_idx = req.get_snapshot().get_last_log_idx();
             if (snp_log_idx >= log_store_->start_index() && snp_log_idx < log_store_->next_slot() &&
-- 
2.43.0


From 006ff43c1bfaf9d448258bd290c6f161d8637cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:43 +0000
Subject: [PATCH 55/71] fix: a server stopped while installing a snapshot must
 be able to recover

Logs were compacted before the snapshot was applied: a server that stopped in
between had neither the logs nor their effect, and applied later logs on top of
the older state or exited at each start. The snapshot is applied first now and
the rest of the installation is completed when the server starts again.
---
 include/raft_server.hxx          |  1 +
 src/raft_server.cxx              | 36 +++++++++++++++
 src/raft_server_req_handlers.cxx | 75 +++++++++++++++-----------------
 3 files changed, 71 insertions(+), 41 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 55a13d0..f4b5d5d 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -110,6 +110,7 @@ private:
     void on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req);
     ulong term_for_log(ulong log_idx);
     bool has_conf_log(ulong start_idx, ulong end_idx);
+    bool compact_logs_in_snapshot();
     void commit_in_bg();
     ptr<async_result<bool>> send_msg_to_leader(ptr<req_msg>& req);
 
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 834e6d8..68bbe6a 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -116,6 +116,18 @@ raft_server::raft_server(context* ctx)
      * - 1) + Majority(S0) > S0 => Vote(A) < Majority(S0)
      * -|
      */
+    if (last_snapshot_)
+    {
+        // the server may have been stopped while installing this snapshot
+        compact_logs_in_snapshot();
+        if (last_snapshot_->get_last_config() &&
+            last_snapshot_->get_last_config()->get_log_idx() > config_->get_log_idx())
+        {
+            config_ = last_snapshot_->get_last_config();
+            ctx_->state_mgr_->save_config(*config_);
+        }
+    }
+
     config_changing_ = has_conf_log(sm_commit_index_ + 1, log_store_->next_slot());
 
     // only a committed config is saved, so logs up to it are committed
@@ -939,6 +951,30 @@ bool raft_server::has_conf_log(ulong start_idx, ulong end_idx)
     return false;
 }
 
+bool raft_server::compact_logs_in_snapshot()
+{
+    ulong snp_log_idx = last_snapshot_->get_last_log_idx();
+    if (snp_log_idx < log_store_->start_index())
+    {
+        return true;
+    }
+
+    if (snp_log_idx < log_store_->next_slot())
+    {
+        if (log_store_->term_at(snp_log_idx) == last_snapshot_->get_last_log_term())
+        {
+            return true;
+        }
+
+        // the logs belong to another history, drop those after the snapshot by overwriting, zero is not a term of any
+        // log, so that this would be done again if the server stops before the logs are compacted
+        ptr<log_entry> entry(cs_new<log_entry>(0, buffer::alloc(0)));
+        log_store_->write_at(snp_log_idx, entry);
+    }
+
+    return log_store_->compact(snp_log_idx);
+}
+
 void raft_server::commit_in_bg()
 {
     while (true)
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 872e3ec..9a335c1 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -379,7 +379,11 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
         // left to be transferred
         l_->warn(sstrfmt("received a snapshot (%llu) that is older than current log store")
                      .fmt(sync_req->get_snapshot().get_last_log_idx()));
-        resp->accept(sync_req->get_snapshot().size());
+        if (!last_snapshot_ || compact_logs_in_snapshot())
+        {
+            resp->accept(sync_req->get_snapshot().size());
+        }
+
         return resp;
     }
 
@@ -420,51 +424,40 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
             }
 
             l_->debug("sucessfully receive a snapshot from leader");
-            ulong snp_log_idx = req.get_snapshot().get_last_log_idx();
-            if (snp_log_idx >= log_store_->start_index() && snp_log_idx < log_store_->next_slot() &&
-                log_store_->term_at(snp_log_idx) != req.get_snapshot().get_last_log_term())
+
+            // The state machine will not be able to commit anything before the snapshot is applied, so make this
+            // synchronously with election timer stopped as usually applying a snapshot may take a very long time. Logs
+            // are kept until it is applied, otherwise, a server that stops in between cannot recover
+            stop_election_timer();
+            if (!state_machine_->apply_snapshot(req.get_snapshot()))
             {
-                // the logs after the snapshot belong to another history, drop them by overwriting
-                ptr<log_entry> entry(cs_new<log_entry>(req.get_snapshot().get_last_log_term(), buffer::alloc(0)));
-                log_store_->write_at(snp_log_idx, entry);
+                l_->info("failed to apply the snapshot, to ensure the safety, will shutdown the system");
+                ctx_->state_mgr_->system_exit(-1);
+                ::exit(-1);
+                return false;
             }
 
-            if (log_store_->compact(req.get_snapshot().get_last_log_idx()))
+            sm_commit_index_ = req.get_snapshot().get_last_log_idx();
+            quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
+            last_snapshot_ = cs_new<snapshot>(
+                req.get_snapshot().get_last_log_idx(),
+                req.get_snapshot().get_last_log_term(),
+                req.get_snapshot().get_last_config(),
+                req.get_snapshot().size());
+            bool compacted = compact_logs_in_snapshot();
+            reconfigure(req.get_snapshot().get_last_config());
+            ctx_->state_mgr_->save_config(*config_);
+            if (catching_up_ && config_->get_server(id_) != nilptr)
             {
-                // The state machine will not be able to commit anything before the snapshot is applied, so make this
-                // synchronously with election timer stopped as usually applying a snapshot may take a very long time
-                stop_election_timer();
-                l_->info("successfully compact the log store, will now ask the statemachine to apply the snapshot");
-                if (!state_machine_->apply_snapshot(req.get_snapshot()))
-                {
-                    l_->info("failed to apply the snapshot after log compacted, to ensure the safety, will shutdown "
-                             "the system");
-                    ctx_->state_mgr_->system_exit(-1);
-                    ::exit(-1);
-                    return false;
-                }
-
-                reconfigure(req.get_snapshot().get_last_config());
-                ctx_->state_mgr_->save_config(*config_);
-                if (catching_up_ && config_->get_server(id_) != nilptr)
-                {
-                    l_->info("this server is committed as one of cluster members");
-                    catching_up_ = false;
-                }
-
-                sm_commit_index_ = req.get_snapshot().get_last_log_idx();
-                quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
-                config_changing_ = has_conf_log(sm_commit_index_ + 1, log_store_->next_slot());
-                ctx_->state_mgr_->save_state(*state_);
-                last_snapshot_ = cs_new<snapshot>(
-                    req.get_snapshot().get_last_log_idx(),
-                    req.get_snapshot().get_last_log_term(),
-                    config_,
-                    req.get_snapshot().size());
-                restart_election_timer();
-                l_->info("snapshot is successfully applied");
+                l_->info("this server is committed as one of cluster members");
+                catching_up_ = false;
             }
-            else
+
+            config_changing_ = has_conf_log(sm_commit_index_ + 1, log_store_->next_slot());
+            ctx_->state_mgr_->save_state(*state_);
+            restart_election_timer();
+            l_->info("snapshot is successfully applied");
+            if (!compacted)
             {
                 l_->err("failed to compact the log store after a snapshot is received, will ask the leader to retry");
                 return false;
-- 
2.43.0


From 2a3ecba6e3a02c8e349a2cff9317cba260512e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:43 +0000
Subject: [PATCH 56/71] fix: heartbeat must not use a peer that was removed
 while waiting for the lock

The committing thread may remove the peer by a new config after its heartbeat
timer is fired, the peer is released then.
---
 src/raft_server.cxx | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 68bbe6a..838fa3a 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -411,6 +411,26 @@ bool raft_server::request_append_entries(peer& p)
 void raft_server::handle_hb_timeout(peer& p)
 {
     recur_lock(lock_);
+
+    // the peer may be removed from cluster and released while waiting for the lock
+    ptr<peer> pp;
+    {
+        read_lock(peers_lock_);
+        for (peer_itor it = peers_.begin(); it != peers_.end(); ++it)
+        {
+            if (it->second.get() == &p)
+            {
+                pp = it->second;
+            }
+        }
+    }
+
+    if (!pp)
+    {
+        l_->info("receive a heartbeat event for a removed peer, ignore it");
+        return;
+    }
+
     l_->debug(sstrfmt("Heartbeat timeout for %d").fmt(p.get_id()));
     if (role_ == srv_role::leader)
     {
-- 
2.43.0


From 72d3a68370cf379c52bc2d228e7b785ec2f2223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:51 +0000
Subject: [PATCH 57/71] fix: a response about an earlier snapshot must not move
 the snapshot being sent

---
 src/raft_server.cxx | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 838fa3a..52ec104 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -400,6 +400,26 @@ bool raft_server::request_append_entries(peer& p)
     if (p.make_busy())
     {
         ptr<req_msg> msg = create_append_entries_req(p);
+        if (msg && msg->get_type() == msg_type::install_snapshot_request)
+        {
+            // an earlier request may be still on the way, its response tells nothing about a snapshot chosen later
+            ptr<peer> pp(p.shared_from_this());
+            ptr<snapshot_sync_ctx> sync_ctx(p.get_snapshot_sync_ctx());
+            rpc_handler handler = [this, pp, sync_ctx](ptr<resp_msg>& resp, const ptr<rpc_exception>& e)
+            {
+                recur_lock(lock_);
+                if (!e && resp->get_accepted() && pp->get_snapshot_sync_ctx() != sync_ctx)
+                {
+                    l_->info(sstrfmt("peer %d responses for an outdated snapshot, ignore it").fmt(pp->get_id()));
+                    return;
+                }
+
+                this->handle_peer_resp(resp, e);
+            };
+            p.send_req(msg, handler);
+            return true;
+        }
+
         p.send_req(msg, resp_handler_);
         return true;
     }
-- 
2.43.0


From ca3625e75816ae3e416be1c29272ec1c46e47e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:52 +0000
Subject: [PATCH 58/71] fix: snapshots of 2GB and more can be sent to a peer

---
 src/raft_server.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 52ec104..5a36e51 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -925,8 +925,8 @@ ptr<req_msg> raft_server::create_sync_snapshot_req(peer& p, ulong last_log_idx,
     }
 
     ulong offset = p.get_snapshot_sync_ctx()->get_offset();
-    int32 sz_left = (int32)(snp->size() - offset);
-    int32 blk_sz = get_snapshot_sync_block_size();
+    ulong sz_left = snp->size() - offset;
+    ulong blk_sz = (ulong)get_snapshot_sync_block_size();
     bufptr data = buffer::alloc((size_t)(std::min(blk_sz, sz_left)));
     int32 sz_rd = state_machine_->read_snapshot_data(*snp, offset, *data);
     if ((size_t)sz_rd < data->size())
-- 
2.43.0


From 2af297763f7537966de36b9a979aaf05de37cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:52 +0000
Subject: [PATCH 59/71] fix: a failed read of a snapshot is never sent to a
 peer as its data

---
 src/raft_server.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 5a36e51..71c0ac0 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -929,7 +929,7 @@ ptr<req_msg> raft_server::create_sync_snapshot_req(peer& p, ulong last_log_idx,
     ulong blk_sz = (ulong)get_snapshot_sync_block_size();
     bufptr data = buffer::alloc((size_t)(std::min(blk_sz, sz_left)));
     int32 sz_rd = state_machine_->read_snapshot_data(*snp, offset, *data);
-    if ((size_t)sz_rd < data->size())
+    if (sz_rd < 0 || (size_t)sz_rd < data->size())
     {
         l_->err(
             lstrfmt(
-- 
2.43.0


From 92e4502fa41dbe61d4f310666b3eddb70feb1a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:17 +0000
Subject: [PATCH 60/71] fix: reading a log in the state machine must not change
 what is committed or sent to peers

---
 src/raft_server.cxx              |  8 ++++++--
 src/raft_server_req_handlers.cxx | 11 ++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 71c0ac0..59b724f 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1068,13 +1068,17 @@ void raft_server::commit_in_bg()
 
                 if (log_entry->get_val_type() == log_val_type::app_log)
                 {
-                    state_machine_->commit(sm_commit_index_, log_entry->get_buf(), log_entry->get_cookie());
+                    // the log may be being sent to peers, state machine reads a copy of its own
+                    log_entry->get_buf().pos(0);
+                    bufptr data = buffer::copy(log_entry->get_buf());
+                    state_machine_->commit(sm_commit_index_, *data, log_entry->get_cookie());
                 }
                 else if (log_entry->get_val_type() == log_val_type::conf)
                 {
                     recur_lock(lock_);
                     log_entry->get_buf().pos(0);
-                    ptr<cluster_config> new_conf = cluster_config::deserialize(log_entry->get_buf());
+                    bufptr data = buffer::copy(log_entry->get_buf());
+                    ptr<cluster_config> new_conf = cluster_config::deserialize(*data);
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
 
                     // logs could be committed again after a restart, never go back to an older config
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 9a335c1..c090318 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -172,7 +172,10 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
                 ptr<log_entry> old_entry(log_store_->entry_at(old_idx));
                 if (old_entry->get_val_type() == log_val_type::app_log)
                 {
-                    state_machine_->rollback(old_idx, old_entry->get_buf(), old_entry->get_cookie());
+                    // the log may be being sent to peers, state machine reads a copy of its own
+                    old_entry->get_buf().pos(0);
+                    bufptr data = buffer::copy(old_entry->get_buf());
+                    state_machine_->rollback(old_idx, *data, old_entry->get_cookie());
                 }
                 else if (old_entry->get_val_type() == log_val_type::conf)
                 {
@@ -189,7 +192,9 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
             log_store_->write_at(idx, entry);
             if (entry->get_val_type() == log_val_type::app_log)
             {
+                entry->get_buf().pos(0);
                 state_machine_->pre_commit(idx, entry->get_buf(), entry->get_cookie());
+                entry->get_buf().pos(0);
             }
             else if (entry->get_val_type() == log_val_type::conf)
             {
@@ -213,7 +218,9 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
             }
             else if (entry->get_val_type() == log_val_type::app_log)
             {
+                entry->get_buf().pos(0);
                 state_machine_->pre_commit(idx_for_entry, entry->get_buf(), entry->get_cookie());
+                entry->get_buf().pos(0);
             }
         }
     }
@@ -295,7 +302,9 @@ ptr<resp_msg> raft_server::handle_cli_req(req_msg& req)
         entries.at(i)->set_term(state_->get_term());
 
         log_store_->append(entries.at(i));
+        entries.at(i)->get_buf().pos(0);
         state_machine_->pre_commit(log_store_->next_slot() - 1, entries.at(i)->get_buf(), entries.at(i)->get_cookie());
+        entries.at(i)->get_buf().pos(0);
     }
 
     // urgent commit, so that the commit will not depend on hb
-- 
2.43.0


From c9448ecb8ead6ba52ee34bfe985af47c06b8ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:18 +0000
Subject: [PATCH 61/71] fix: a compaction that fails must restore the log store

---
 src/fs_log_store.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index a5dd0ff..24764ca 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -824,7 +824,7 @@ bool fs_log_store::compact(ulong last_log_index)
     idx_bak_file.seekg(0);
     data_bak_file.seekg(0);
     start_idx_bak_file.seekg(0);
-    data_file_.open(data_bak_path, std::fstream::out);
+    data_file_.open(data_file_path, std::fstream::out);
     data_file_.close();
     data_file_.open(data_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
     idx_file_.open(idx_file_path, std::fstream::out);
@@ -839,8 +839,12 @@ bool fs_log_store::compact(ulong last_log_index)
         throw std::runtime_error("IO error, fails to restore files back.");
     }
 
-    data_file_ << data_bak_file.rdbuf();
-    idx_file_ << idx_bak_file.rdbuf();
+    if (entries_in_store_ > 0) // inserting nothing makes a stream bad
+    {
+        data_file_ << data_bak_file.rdbuf();
+        idx_file_ << idx_bak_file.rdbuf();
+    }
+
     start_idx_file_ << start_idx_bak_file.rdbuf();
     data_file_.flush();
     idx_file_.flush();
-- 
2.43.0


From f39256f64c8981d822fec12a29bd323d040637dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:07 +0000
Subject: [PATCH 62/71] fix: a compaction that cannot write its files must not
 lose logs

---
 src/fs_log_store.cxx | 54 +++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 24764ca..4fa45b1 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -668,7 +668,8 @@ bool fs_log_store::compact(ulong last_log_index)
     std::remove(start_idx_bak_path.c_str());
 
     std::fstream idx_bak_file, data_bak_file, start_idx_bak_file;
-    idx_bak_file.open(idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
+    idx_bak_file.open(
+        idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::trunc);
     if (!idx_bak_file)
     {
         idx_bak_file.open(idx_bak_path, std::fstream::out);
@@ -676,7 +677,8 @@ bool fs_log_store::compact(ulong last_log_index)
         idx_bak_file.open(idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
     }
 
-    data_bak_file.open(data_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
+    data_bak_file.open(
+        data_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::trunc);
     if (!data_bak_file)
     {
         data_bak_file.open(data_bak_path, std::fstream::out);
@@ -684,7 +686,8 @@ bool fs_log_store::compact(ulong last_log_index)
         data_bak_file.open(data_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
     }
 
-    start_idx_bak_file.open(start_idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary);
+    start_idx_bak_file.open(
+        start_idx_bak_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::trunc);
     if (!start_idx_bak_file)
     {
         start_idx_bak_file.open(start_idx_bak_path, std::fstream::out);
@@ -695,15 +698,26 @@ bool fs_log_store::compact(ulong last_log_index)
     if (!idx_bak_file || !data_bak_file || !start_idx_bak_file)
         return false; // we cannot proceed as backup files are bad
 
+    idx_file_.seekg(0, std::fstream::end);
+    data_file_.seekg(0, std::fstream::end);
+    std::fstream::pos_type idx_file_len = idx_file_.tellg();
+    std::fstream::pos_type data_file_len = data_file_.tellg();
     idx_file_.seekg(0);
     data_file_.seekg(0);
     start_idx_file_.seekg(0);
-    idx_bak_file << idx_file_.rdbuf();
-    data_bak_file << data_file_.rdbuf();
+    if (entries_in_store_ > 0) // inserting nothing makes a stream bad
+    {
+        idx_bak_file << idx_file_.rdbuf();
+        data_bak_file << data_file_.rdbuf();
+    }
+
     start_idx_bak_file << start_idx_file_.rdbuf();
     idx_bak_file.flush();
     data_bak_file.flush();
     start_idx_bak_file.flush();
+    if (!idx_bak_file || !data_bak_file || !start_idx_bak_file || idx_bak_file.tellp() != idx_file_len ||
+        data_bak_file.tellp() != data_file_len)
+        return false; // the logs could not be saved, so keep them where they are
 
     do
     {
@@ -734,6 +748,8 @@ bool fs_log_store::compact(ulong last_log_index)
             start_idx_buf->pos(0);
             start_idx_file_ << *start_idx_buf;
             start_idx_file_.flush();
+            if (!start_idx_file_)
+                break;
             start_idx_ = last_log_index + 1;
             entries_in_store_ = 0;
             buf_->reset(start_idx_);
@@ -761,10 +777,12 @@ bool fs_log_store::compact(ulong last_log_index)
         data_bak_file.seekg(data_pos);
         data_file_.seekp(0);
         data_file_ << data_bak_file.rdbuf();
+        if (static_cast<ulong>(data_file_.tellp()) != data_len)
+            break;
 
         // truncate the data file
         data_file_.close();
-        if (0 != truncate(data_file_path.c_str(), data_len))
+        if (!data_file_ || 0 != truncate(data_file_path.c_str(), data_len))
             break;
         data_file_.open(
             data_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
@@ -787,23 +805,26 @@ bool fs_log_store::compact(ulong last_log_index)
 
         // truncate the index file
         idx_file_.close();
-        if (0 != truncate(idx_file_path.c_str(), idx_len))
+        if (!idx_file_ || 0 != truncate(idx_file_path.c_str(), idx_len))
             break;
         idx_file_.open(idx_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
         if (!idx_file_)
             break;
 
-        // close all backup files
-        idx_bak_file.close();
-        data_bak_file.close();
-        start_idx_bak_file.close();
-
         start_idx_file_.seekp(0);
         bufptr start_idx_buf(buffer::alloc(sz_ulong));
         start_idx_buf->put(last_log_index + 1);
         start_idx_buf->pos(0);
         start_idx_file_ << *start_idx_buf;
         start_idx_file_.flush();
+        if (!start_idx_file_)
+            break;
+
+        // close all backup files
+        idx_bak_file.close();
+        data_bak_file.close();
+        start_idx_bak_file.close();
+
         entries_in_store_ -= (last_log_index - start_idx_ + 1);
         start_idx_ = last_log_index + 1;
         buf_->reset(entries_in_store_ > (size_t)buf_size_ ? entries_in_store_ + start_idx_ - buf_size_ : start_idx_);
@@ -812,12 +833,9 @@ bool fs_log_store::compact(ulong last_log_index)
     } while (false);
 
     // restore the state due to errors
-    if (idx_file_)
-        idx_file_.close();
-    if (data_file_)
-        data_file_.close();
-    if (start_idx_file_)
-        start_idx_file_.close();
+    idx_file_.close();
+    data_file_.close();
+    start_idx_file_.close();
     std::remove(idx_file_path.c_str());
     std::remove(data_file_path.c_str());
     std::remove(start_idx_file_path.c_str());
-- 
2.43.0


From ec427e2f1c3f423cca0c3b92c3126b86e0474c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:33 +0000
Subject: [PATCH 63/71] fix: an election timer that expires while the server is
 elected must not stop it

---
 src/raft_server.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 59b724f..258871b 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -233,8 +233,8 @@ void raft_server::handle_election_timeout()
 
     if (role_ == srv_role::leader)
     {
-        l_->err("A leader should never encounter election timeout, illegal application state, stop the application");
-        ctx_->state_mgr_->system_exit(-1);
+        // the timer had expired already when this server was elected, which was too late for cancelling it
+        l_->info("election timeout while this server is elected, ignore it.");
         return;
     }
 
-- 
2.43.0


From 3cbf7e2227e7bcfc00dca4f8371ccfe3a566cc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:55 +0000
Subject: [PATCH 64/71] fix: forwarding a request must not race with a config
 change

---
 src/raft_server.cxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 258871b..8029f28 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1154,8 +1154,15 @@ ptr<async_result<bool>> raft_server::remove_srv(const int srv_id)
 ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
 {
     typedef std::unordered_map<int32, ptr<rpc_client>>::const_iterator rpc_client_itor;
-    int32 leader_id = leader_;
-    ptr<cluster_config> cluster = config_;
+    int32 leader_id(-1);
+    ptr<srv_config> srv_conf;
+    {
+        // the config may be replaced at any time
+        recur_lock(lock_);
+        leader_id = leader_;
+        srv_conf = config_->get_server(leader_id);
+    }
+
     bool result(false);
     if (leader_id == -1)
     {
@@ -1175,7 +1182,6 @@ ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
         rpc_client_itor itor = rpc_clients_.find(leader_id);
         if (itor == rpc_clients_.end())
         {
-            ptr<srv_config> srv_conf = config_->get_server(leader_id);
             if (!srv_conf)
             {
                 return cs_new<async_result<bool>>(result);
-- 
2.43.0


From 478cd657030baf83e64049b3e17e6bcfec785842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:27 +0000
Subject: [PATCH 65/71] fix: a snapshot being made must not stop a leader that
 sends logs

---
 src/raft_server.cxx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 8029f28..3cce8fd 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -763,8 +763,7 @@ ptr<req_msg> raft_server::create_append_entries_req(peer& p)
     bool need_snapshot = last_log_idx < starting_idx - 1;
     if (last_log_idx > 0 && last_log_idx == starting_idx - 1)
     {
-        ptr<snapshot> last_snapshot(state_machine_->last_snapshot());
-        need_snapshot = !last_snapshot || last_snapshot->get_last_log_idx() != last_log_idx;
+        need_snapshot = !last_snapshot_ || last_snapshot_->get_last_log_idx() != last_log_idx;
     }
 
     if (need_snapshot)
@@ -965,15 +964,15 @@ ulong raft_server::term_for_log(ulong log_idx)
         return log_store_->term_at(log_idx);
     }
 
-    ptr<snapshot> last_snapshot(state_machine_->last_snapshot());
-    if (!last_snapshot || log_idx != last_snapshot->get_last_log_idx())
+    // the state machine may be ahead with a snapshot for which the logs are not compacted yet
+    if (!last_snapshot_ || log_idx != last_snapshot_->get_last_log_idx())
     {
         l_->err(sstrfmt("bad log_idx %llu for retrieving the term value, kill the system to protect the system")
                     .fmt(log_idx));
         ctx_->state_mgr_->system_exit(-1);
     }
 
-    return last_snapshot->get_last_log_term();
+    return last_snapshot_->get_last_log_term();
 }
 
 bool raft_server::has_conf_log(ulong start_idx, ulong end_idx)
-- 
2.43.0


From e042c7dd9b1b0f826d577681594a9eb214e922b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:27 +0000
Subject: [PATCH 66/71] fix: a snapshot that completes must not be in use by
 the committing thread

---
 src/raft_server.cxx | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 3cce8fd..ec656a3 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -634,19 +634,27 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
         return;
     }
 
+    // both may be replaced at any time
+    ptr<snapshot> last_snapshot;
+    ptr<cluster_config> conf;
+    {
+        recur_lock(lock_);
+        last_snapshot = last_snapshot_;
+        conf = config_;
+    }
+
     bool snapshot_in_action = false;
     try
     {
         bool f = false;
-        if ((!last_snapshot_ ||
-             (committed_idx - last_snapshot_->get_last_log_idx()) >= (ulong)ctx_->params_->snapshot_distance_) &&
+        if ((!last_snapshot ||
+             (committed_idx - last_snapshot->get_last_log_idx()) >= (ulong)ctx_->params_->snapshot_distance_) &&
             snp_in_progress_.compare_exchange_strong(f, true))
         {
             snapshot_in_action = true;
             l_->info(sstrfmt("creating a snapshot for index %llu").fmt(committed_idx));
 
             // get the latest configuration info
-            ptr<cluster_config> conf(config_);
             while (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() >= log_store_->start_index())
             {
                 ptr<log_entry> conf_log(log_store_->entry_at(conf->get_prev_log_idx()));
@@ -656,7 +664,7 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
             if (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() > 0 &&
                 conf->get_prev_log_idx() < log_store_->start_index())
             {
-                if (!last_snapshot_)
+                if (!last_snapshot)
                 {
                     l_->err("No snapshot could be found while no configuration cannot be found in current committed "
                             "logs, this is a system error, exiting");
@@ -664,7 +672,7 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
                     return;
                 }
 
-                conf = last_snapshot_->get_last_config();
+                conf = last_snapshot->get_last_config();
             }
             else if (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() == 0)
             {
-- 
2.43.0


From 4ba569f1f818c0cba9ed496cc505de697dd5be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 67/71] fix: a configuration read for a snapshot must not be
 used up for the next one

---
 src/raft_server.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index ec656a3..d09aabe 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -658,7 +658,9 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
             while (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() >= log_store_->start_index())
             {
                 ptr<log_entry> conf_log(log_store_->entry_at(conf->get_prev_log_idx()));
-                conf = cluster_config::deserialize(conf_log->get_buf());
+                conf_log->get_buf().pos(0);
+                bufptr conf_data(buffer::copy(conf_log->get_buf()));
+                conf = cluster_config::deserialize(*conf_data);
             }
 
             if (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() > 0 &&
-- 
2.43.0


From 9798e01fc809e85d607af4fa0feceb32cd8ff01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:55 +0000
Subject: [PATCH 68/71] fix: keep the last entry in memory when the log store
 buffer size is zero

---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 4fa45b1..0da071a 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -180,7 +180,7 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
       log_folder_(log_folder),
       store_lock_(),
       buf_(nilptr),
-      buf_size_(buf_size < 0 ? std::numeric_limits<int>::max() : buf_size)
+      buf_size_(buf_size < 0 ? std::numeric_limits<int>::max() : std::max(buf_size, 1)) // the last entry is always kept
 {
     if (log_folder_.length() > 0 && log_folder_[log_folder_.length() - 1] != PATH_SEPARATOR)
     {
-- 
2.43.0


From 96b12bc7eeae54569adb5c23e7060793b0f01090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:21 +0000
Subject: [PATCH 69/71] fix: packing no entries from the file log store gives
 an empty pack

---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 0da071a..3452f7b 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -530,7 +530,7 @@ bufptr fs_log_store::pack(ulong index, int32 cnt)
     }
 
     ulong offset = index - start_idx_;
-    if (offset >= entries_in_store_)
+    if (offset >= entries_in_store_ || cnt <= 0)
     {
         return buffer::alloc(0);
     }
-- 
2.43.0


From 70e194f48a0c6bdacdca157637cdbfcacb882d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 70/71] fix: time stamps of log lines must not be mixed up by
 other threads

---
 src/asio_service.cxx | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 7de34c7..b04181a 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -805,16 +805,21 @@ void cornerstone::impls::fs_based_logger::write_log(const std::string& level, co
     std::chrono::system_clock::time_point now = std::chrono::system_clock::now();
     int ms = (int)(std::chrono::duration_cast<std::chrono::milliseconds>(now.time_since_epoch()).count() % 1000);
     std::time_t now_c = std::chrono::system_clock::to_time_t(now);
-    std::tm* tm = std::gmtime(&now_c);
+    std::tm tm; // std::gmtime shares one among all threads
+#ifdef _WIN32
+    gmtime_s(&tm, &now_c);
+#else
+    gmtime_r(&now_c, &tm);
+#endif
     std::hash<std::thread::id> hasher;
     std::string line(sstrfmt("%d/%d/%d %d:%d:%d.%d\t[%d]\t%s\t")
                          .fmt(
-                             tm->tm_mon + 1,
-                             tm->tm_mday,
-                             tm->tm_year + 1900,
-                             tm->tm_hour,
-                             tm->tm_min,
-                             tm->tm_sec,
+                             tm.tm_mon + 1,
+                             tm.tm_mday,
+                             tm.tm_year + 1900,
+                             tm.tm_hour,
+                             tm.tm_min,
+                             tm.tm_sec,
                              ms,
                              hasher(std::this_thread::get_id()),
                              level.c_str()));
-- 
2.43.0


From dd98ce80c7b4094e23f935abf8c9025c067bbfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:33 +0000
Subject: [PATCH 71/71] fix: retries of membership requests must not outlive
 the server

---
 include/raft_server.hxx           |  3 +++
 src/raft_server.cxx               | 10 ++++++++++
 src/raft_server_req_handlers.cxx  | 12 ++++++++++--
 src/raft_server_resp_handlers.cxx |  3 +--
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index f4b5d5d..f5f7cb3 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -17,6 +17,7 @@
 #ifndef _RAFT_SERVER_HXX_
 #define _RAFT_SERVER_HXX_
 
+#include <list>
 #include <shared_mutex>
 #include <unordered_map>
 #include "context.hxx"
@@ -108,6 +109,7 @@ private:
     int get_snapshot_sync_block_size() const;
     void on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr<std::exception>& err);
     void on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req);
+    void schedule_retry(timer_task<void>::executor exec, int32 milliseconds);
     ulong term_for_log(ulong log_idx);
     bool has_conf_log(ulong start_idx, ulong end_idx);
     bool compact_logs_in_snapshot();
@@ -133,6 +135,7 @@ private:
     ptr<delayed_task_scheduler> scheduler_;
     timer_task<void>::executor election_exec_;
     ptr<delayed_task> election_task_;
+    std::list<wptr<delayed_task>> retry_tasks_;
     std::unordered_map<int32, ptr<peer>> peers_;
     mutable std::shared_timed_mutex peers_lock_;
     std::unordered_map<int32, ptr<rpc_client>> rpc_clients_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index d09aabe..be0c474 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -64,6 +64,7 @@ raft_server::raft_server(context* ctx)
       scheduler_(ctx->scheduler_),
       election_exec_([this]() { this->handle_election_timeout(); }),
       election_task_(),
+      retry_tasks_(),
       peers_(),
       peers_lock_(),
       rpc_clients_(),
@@ -173,6 +174,15 @@ raft_server::~raft_server()
         scheduler_->cancel(election_task_);
     }
 
+    for (const wptr<delayed_task>& retry_task : retry_tasks_)
+    {
+        ptr<delayed_task> task(retry_task.lock());
+        if (task)
+        {
+            scheduler_->cancel(task);
+        }
+    }
+
     {
         read_lock(peers_lock_);
         for (peer_itor it = peers_.begin(); it != peers_.end(); ++it)
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index c090318..7a10a89 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -503,6 +503,15 @@ void raft_server::on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req)
     p->send_req(req, ex_resp_handler_);
 }
 
+void raft_server::schedule_retry(timer_task<void>::executor exec, int32 milliseconds)
+{
+    // the scheduler drops a task when it is completed, the ones that are left are cancelled when this server is destroyed
+    retry_tasks_.remove_if([](const wptr<delayed_task>& task) { return task.expired(); });
+    ptr<delayed_task> task(cs_new<timer_task<void>>(exec));
+    retry_tasks_.push_back(task);
+    scheduler_->schedule(task, milliseconds);
+}
+
 ptr<resp_msg> raft_server::handle_rm_srv_req(req_msg& req)
 {
     std::vector<ptr<log_entry>>& entries(req.log_entries());
@@ -646,8 +655,7 @@ void raft_server::sync_log_to_new_srv(ulong start_idx)
                 sync_log_to_new_srv(start_idx);
             }
         };
-        ptr<delayed_task> task(cs_new<timer_task<void>>(exec));
-        scheduler_->schedule(task, ctx_->params_->heart_beat_interval_);
+        schedule_retry(std::move(exec), ctx_->params_->heart_beat_interval_);
         return;
     }
 
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 2e06b19..9bfc82d 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -504,8 +504,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 l_->debug("retry the request");
                 p->slow_down_hb();
                 timer_task<void>::executor exec = [this, p, req]() mutable { this->on_retryable_req_err(p, req); };
-                ptr<delayed_task> task(cs_new<timer_task<void>>(exec));
-                scheduler_->schedule(task, p->get_current_hb_interval());
+                schedule_retry(std::move(exec), p->get_current_hb_interval());
             }
         }
     }
-- 
2.43.0

