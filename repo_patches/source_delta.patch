From 60ff5e2b6c81c7d1da512fc9b69648770386f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:11 +0000
Subject: [PATCH 01/50] fix: a leader must not commit entries of previous terms
 by counting replicas

---
 src/raft_server_resp_handlers.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index c1a4ab9..26eb135 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -114,7 +114,15 @@ void raft_server::handle_append_entries_resp(resp_msg& resp)
         }
 
         std::sort(matched_indexes.begin(), matched_indexes.end(), std::greater<ulong>());
-        commit(matched_indexes[(peers_.size() + 1) / 2]);
+        ulong majority_idx = matched_indexes[(peers_.size() + 1) / 2];
+        if (majority_idx > quick_commit_idx_ && term_for_log(majority_idx) != state_->get_term())
+        {
+            // only log entries from current term are committed by counting replicas, entries from previous terms get
+            // committed indirectly
+            majority_idx = quick_commit_idx_;
+        }
+
+        commit(majority_idx);
         need_to_catchup = p->clear_pending_commit() || resp.get_next_idx() < log_store_->next_slot();
     }
     else
-- 
2.43.0


From 627ed341643d44f4be3201ab3c3253cb35b03c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:11 +0000
Subject: [PATCH 02/50] fix: a new leader must not reuse the match indexes of
 an earlier leadership

---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2cd053b..bfec783 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -439,6 +439,7 @@ void raft_server::become_leader()
         for (peer_itor it = peers_.begin(); it != peers_.end(); ++it)
         {
             it->second->set_next_log_idx(log_store_->next_slot());
+            it->second->set_matched_idx(0);
             it->second->set_snapshot_in_sync(nil_snp);
             it->second->set_free();
             enable_hb_for_peer(*(it->second));
-- 
2.43.0


From 4900247dfd4a880722160aac26243edcc296cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:11 +0000
Subject: [PATCH 03/50] fix: ignore responses of earlier terms as the comment
 in handle_peer_resp promises

---
 src/raft_server_resp_handlers.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 26eb135..e7eb41a 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -61,6 +61,13 @@ void raft_server::handle_peer_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>
         }
 
         // ignore the response that with lower term for safety
+        if (resp->get_term() < state_->get_term())
+        {
+            l_->info(sstrfmt("Received an outdated response at term %llu v.s. current term %llu")
+                         .fmt(resp->get_term(), state_->get_term()));
+            return;
+        }
+
         switch (resp->get_type())
         {
             case msg_type::vote_response:
-- 
2.43.0


From aeff5b86d28c5efcef2b7f72662a8020630c42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:11 +0000
Subject: [PATCH 04/50] fix: a follower must not commit log entries the append
 entries request does not cover

---
 src/raft_server_req_handlers.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 41d9891..6d25be8 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -185,7 +185,9 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     }
 
     leader_ = req.get_src();
-    commit(req.get_commit_idx());
+
+    // logs after the ones covered by this request are not yet known to match leader's
+    commit(std::min(req.get_commit_idx(), req.get_last_log_idx() + (ulong)req.log_entries().size()));
     resp->accept(req.get_last_log_idx() + req.log_entries().size() + 1);
     return resp;
 }
-- 
2.43.0


From 69f35e4ab7fe20ad4f6911d82c31bf27b40577f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:11 +0000
Subject: [PATCH 05/50] fix: compare candidates' logs with the snapshot's term
 when the whole log has been compacted

---
 src/raft_server_req_handlers.cxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 6d25be8..e28e134 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -195,8 +195,10 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
 ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::vote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
+    // the last log entry may have been compacted
+    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);
+    bool log_okay = req.get_last_log_term() > last_log_term ||
+                    (req.get_last_log_term() == last_log_term &&
                      log_store_->next_slot() - 1 <= req.get_last_log_idx());
     bool grant = req.get_term() == state_->get_term() && log_okay &&
                  (state_->get_voted_for() == req.get_src() || state_->get_voted_for() == -1);
@@ -213,8 +215,10 @@ ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 ptr<resp_msg> raft_server::handle_prevote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::prevote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
+    // the last log entry may have been compacted
+    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);
+    bool log_okay = req.get_last_log_term() > last_log_term ||
+                    (req.get_last_log_term() == last_log_term &&
                      log_store_->next_slot() - 1 <= req.get_last_log_idx());
     bool grant = req.get_term() >= state_->get_term() && log_okay;
     if (ctx_->params_->defensive_prevote_)
-- 
2.43.0


From b68aa0a1e1c1f1e7c1c1b2c31f68f717bbde1afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:11 +0000
Subject: [PATCH 06/50] fix: send a snapshot to a peer that needs log entries
 which are compacted

---
 src/raft_server.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index bfec783..717381f 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -671,7 +671,14 @@ ptr<req_msg> raft_server::create_append_entries_req(peer& p)
     }
 
     // for syncing the snapshots, for starting_idx - 1, we can check with last snapshot
-    if (last_log_idx > 0 && last_log_idx < starting_idx - 1)
+    bool snapshot_required = last_log_idx < starting_idx - 1;
+    if (!snapshot_required && last_log_idx > 0 && last_log_idx == starting_idx - 1)
+    {
+        ptr<snapshot> snp(state_machine_->last_snapshot());
+        snapshot_required = !snp || snp->get_last_log_idx() != last_log_idx;
+    }
+
+    if (snapshot_required)
     {
         return create_sync_snapshot_req(p, last_log_idx, term, commit_idx);
     }
-- 
2.43.0


From b50fa550ac10eacf34721a939c5fd7f3858ee936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:11 +0000
Subject: [PATCH 07/50] fix: reject an append entries request for compacted log
 entries

---
 src/raft_server_req_handlers.cxx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index e28e134..aa153fd 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -111,8 +111,17 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     // log_store_->next_slot() for the leader to quick jump to the index that might aligned
     ptr<resp_msg> resp(cs_new<resp_msg>(
         state_->get_term(), msg_type::append_entries_response, id_, req.get_src(), log_store_->next_slot()));
-    bool log_okay = req.get_last_log_idx() == 0 || (req.get_last_log_idx() < log_store_->next_slot() &&
-                                                    req.get_last_log_term() == term_for_log(req.get_last_log_idx()));
+    bool log_okay = req.get_last_log_idx() < log_store_->next_slot();
+    if (log_okay && req.get_last_log_idx() < log_store_->start_index())
+    {
+        // the log entry is compacted, it can be checked only if it's the last one in last snapshot
+        ptr<snapshot> last_snapshot(state_machine_->last_snapshot());
+        log_okay = req.get_last_log_idx() + 1 == log_store_->start_index() &&
+                   (req.get_last_log_idx() == 0 ||
+                    (last_snapshot && last_snapshot->get_last_log_idx() == req.get_last_log_idx()));
+    }
+
+    log_okay = log_okay && req.get_last_log_term() == term_for_log(req.get_last_log_idx());
     if (req.get_term() < state_->get_term() || !log_okay)
     {
         return resp;
-- 
2.43.0


From fdc67e74cea890be2f6cedf5889f9fe15d5517ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:37 +0000
Subject: [PATCH 08/50] fix: use the state machine's snapshot after it is
 created and never compact what is compacted already

---
 src/raft_server.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 717381f..8d74686 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -626,8 +626,10 @@ void raft_server::on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr
             recur_lock(lock_);
             l_->debug("snapshot created, compact the log store");
 
-            last_snapshot_ = s;
-            if (s->get_last_log_idx() > (ulong)ctx_->params_->reserved_log_items_)
+            // the size of the snapshot is only known by the state machine
+            last_snapshot_ = state_machine_->last_snapshot();
+            if (s->get_last_log_idx() > (ulong)ctx_->params_->reserved_log_items_ &&
+                s->get_last_log_idx() - (ulong)ctx_->params_->reserved_log_items_ >= log_store_->start_index())
             {
                 log_store_->compact(s->get_last_log_idx() - (ulong)ctx_->params_->reserved_log_items_);
             }
-- 
2.43.0


From 4c0ca288a384a233173012d38d1cd1acdae1180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:37 +0000
Subject: [PATCH 09/50] fix: tell the leader that a snapshot is not needed any
 more instead of declining it forever

---
 src/raft_server_req_handlers.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index aa153fd..08167f9 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -349,6 +349,9 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
     {
         l_->warn(sstrfmt("received a snapshot (%llu) that is older than current log store")
                      .fmt(sync_req->get_snapshot().get_last_log_idx()));
+
+        // everything in this snapshot has been committed here, let the leader move on
+        resp->accept(sync_req->get_snapshot().size());
         return resp;
     }
 
-- 
2.43.0


From b5a830ec2a37682233aa9c88c7407297ecba103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:21 +0000
Subject: [PATCH 10/50] fix: roll back every log entry that is discarded by a
 conflict, not only the ones that are replaced

---
 include/raft_server.hxx          |  1 +
 src/raft_server_req_handlers.cxx | 35 +++++++++++++++++++++-----------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index d9044fc..18925b7 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -77,6 +77,7 @@ private:
     ptr<resp_msg> handle_leave_cluster_req(req_msg& req);
     ptr<resp_msg> handle_prevote_req(req_msg& req);
     bool handle_snapshot_sync_req(snapshot_sync_req& req);
+    void rollback_logs(ulong from_idx);
     void request_vote();
     void request_prevote();
     void request_append_entries();
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 08167f9..bd90dc8 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -146,20 +146,14 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
             }
         }
 
-        // dealing with overwrites
-        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        // dealing with overwrites, this log entry and all log entries after it will be gone
+        if (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
         {
-            ptr<log_entry> old_entry(log_store_->entry_at(idx));
-            if (old_entry->get_val_type() == log_val_type::app_log)
-            {
-                state_machine_->rollback(idx, old_entry->get_buf(), old_entry->get_cookie());
-            }
-            else if (old_entry->get_val_type() == log_val_type::conf)
-            {
-                l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
-                config_changing_ = false;
-            }
+            rollback_logs(idx);
+        }
 
+        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        {
             ptr<log_entry> entry = req.log_entries().at(log_idx);
             log_store_->write_at(idx, entry);
             if (entry->get_val_type() == log_val_type::app_log)
@@ -425,6 +419,23 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
     return true;
 }
 
+void raft_server::rollback_logs(ulong from_idx)
+{
+    for (ulong idx = log_store_->next_slot() - 1; idx >= from_idx; --idx)
+    {
+        ptr<log_entry> entry(log_store_->entry_at(idx));
+        if (entry->get_val_type() == log_val_type::app_log)
+        {
+            state_machine_->rollback(idx, entry->get_buf(), entry->get_cookie());
+        }
+        else if (entry->get_val_type() == log_val_type::conf)
+        {
+            l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
+            config_changing_ = false;
+        }
+    }
+}
+
 void raft_server::on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req)
 {
     l_->debug(sstrfmt("retry the request %s for %d").fmt(__msg_type_str[req->get_type()], p->get_id()));
-- 
2.43.0


From 450be23a6e2a1775177349b5d9e7973d31831e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:21 +0000
Subject: [PATCH 11/50] fix: discard log entries that conflict with an
 installed snapshot

---
 include/raft_server.hxx          |  1 +
 src/raft_server_req_handlers.cxx | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 18925b7..221745b 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -77,6 +77,7 @@ private:
     ptr<resp_msg> handle_leave_cluster_req(req_msg& req);
     ptr<resp_msg> handle_prevote_req(req_msg& req);
     bool handle_snapshot_sync_req(snapshot_sync_req& req);
+    void discard_conflict_logs(const snapshot& snp);
     void rollback_logs(ulong from_idx);
     void request_vote();
     void request_prevote();
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index bd90dc8..7b820f6 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -373,6 +373,7 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
             }
 
             l_->debug("sucessfully receive a snapshot from leader");
+            discard_conflict_logs(req.get_snapshot());
             if (log_store_->compact(req.get_snapshot().get_last_log_idx()))
             {
                 // The state machine will not be able to commit anything before the snapshot is applied, so make this
@@ -419,6 +420,22 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
     return true;
 }
 
+void raft_server::discard_conflict_logs(const snapshot& snp)
+{
+    // if the log entry at snapshot's last log index is not the one in the snapshot, none of the log entries after that
+    // belongs to the leader's log
+    ulong last_idx = snp.get_last_log_idx();
+    if (last_idx < log_store_->start_index() || last_idx + 1 >= log_store_->next_slot() ||
+        log_store_->term_at(last_idx) == snp.get_last_log_term())
+    {
+        return;
+    }
+
+    rollback_logs(last_idx + 1);
+    ptr<log_entry> entry(log_store_->entry_at(last_idx));
+    log_store_->write_at(last_idx, entry);
+}
+
 void raft_server::rollback_logs(ulong from_idx)
 {
     for (ulong idx = log_store_->next_slot() - 1; idx >= from_idx; --idx)
-- 
2.43.0


From 22ac70ca18f21811d9f2b1ada18ebbe2d64da929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:21 +0000
Subject: [PATCH 12/50] fix: re-check leadership and pending config changes
 before removing a server

---
 src/raft_server_resp_handlers.cxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index e7eb41a..a339e15 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -344,6 +344,12 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
                 return;
             }
 
+            if (role_ != srv_role::leader || config_changing_)
+            {
+                l_->info("no longer a leader or another config change is in progress, stop proceeding");
+                return;
+            }
+
             l_->debug("peer accepted to stepping down, removing this server from cluster");
             rm_srv_from_cluster(resp->get_src());
             break;
@@ -428,6 +434,12 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
             {
                 if (req->get_type() == msg_type::leave_cluster_request)
                 {
+                    if (role_ != srv_role::leader || config_changing_)
+                    {
+                        l_->info("no longer a leader or another config change is in progress, stop proceeding");
+                        return;
+                    }
+
                     l_->info(lstrfmt("rpc failed again for the removing server (%d), will remove this server directly")
                                  .fmt(p->get_id()));
 
@@ -463,7 +475,6 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 {
                     l_->info(lstrfmt("rpc failed again for the new coming server (%d), will stop retry for this server")
                                  .fmt(p->get_id()));
-                    config_changing_ = false;
                     srv_to_join_.reset();
                 }
             }
-- 
2.43.0


From 130eae1162f93a710801b93312f43d793263a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:01 +0000
Subject: [PATCH 13/50] fix: async_result must invoke the handler once and must
 not return from get before there is a result

---
 include/async.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/async.hxx b/include/async.hxx
index e03b0a2..9bf0802 100644
--- a/include/async.hxx
+++ b/include/async.hxx
@@ -36,7 +36,7 @@ public:
     explicit async_result(T& result) : result_(result), err_(), has_result_(true), lock_(), cv_()
     {
     }
-    explicit async_result(handler_type& handler) : err_(), has_result_(true), handler_(handler), lock_(), cv_()
+    explicit async_result(handler_type& handler) : err_(), has_result_(false), handler_(handler), lock_(), cv_()
     {
     }
 
@@ -50,12 +50,14 @@ public:
     template <typename _THandler>
     void when_ready(_THandler&& handler)
     {
+        bool ready(false);
         {
             std::lock_guard<std::mutex> guard(lock_);
             handler_ = std::forward<_THandler>(handler);
+            ready = has_result_; // otherwise, set_result will find the handler
         }
 
-        if (has_result_)
+        if (ready)
         {
             handler_(result_, err_);
         }
@@ -97,7 +99,7 @@ public:
             throw err_;
         }
 
-        cv_.wait(lock);
+        cv_.wait(lock, [this]() { return has_result_; });
         if (err_ == nullptr)
         {
             return result_;
-- 
2.43.0


From e92d303785b9273775444dd0ff7ce45993a5c5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:01 +0000
Subject: [PATCH 14/50] fix: is_leader must not use a quorum response time
 cached by another call or another server

---
 src/raft_server.cxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 8d74686..cdca2ae 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1062,10 +1062,8 @@ ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
 
 bool raft_server::is_leader() const
 {
-    static volatile int32 time_elasped_since_quorum_resp(std::numeric_limits<int32>::max());
     read_lock(peers_lock_);
-    if (role_ == srv_role::leader && peers_.size() > 0 &&
-        time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
+    if (role_ == srv_role::leader && peers_.size() > 0)
     {
         std::vector<time_point> peer_resp_times;
         for (auto& peer : peers_)
@@ -1074,10 +1072,9 @@ bool raft_server::is_leader() const
         }
 
         std::sort(peer_resp_times.begin(), peer_resp_times.end());
-        time_elasped_since_quorum_resp =
-            static_cast<int32>(std::chrono::duration_cast<std::chrono::milliseconds>(
-                                   system_clock::now() - peer_resp_times[peers_.size() / 2])
-                                   .count());
+        auto time_elasped_since_quorum_resp = std::chrono::duration_cast<std::chrono::milliseconds>(
+                                                  system_clock::now() - peer_resp_times[peers_.size() / 2])
+                                                  .count();
         if (time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
         {
             return false;
-- 
2.43.0


From 852b98cc8814d75c3d2f542be06ab71e6fd3fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:01 +0000
Subject: [PATCH 15/50] fix: replicate_log must append under the lock, notify
 the state machine and report acceptance

---
 src/raft_server.cxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index cdca2ae..9601cad 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1086,6 +1086,7 @@ bool raft_server::is_leader() const
 
 bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cookie_tag)
 {
+    recur_lock(lock_);
     if (!is_leader())
     {
         return false;
@@ -1098,10 +1099,7 @@ bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cooki
     }
 
     log_store_->append(entry);
-    {
-        recur_lock(lock_);
-        request_append_entries();
-    }
-
-    return false;
+    state_machine_->pre_commit(log_store_->next_slot() - 1, entry->get_buf(), entry->get_cookie());
+    request_append_entries();
+    return true;
 }
-- 
2.43.0


From e64508bb5f3d251f713d03d4bc9d31c1cc0948e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:01 +0000
Subject: [PATCH 16/50] fix: keep the election timer running while prevoting

---
 src/raft_server.cxx | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 9601cad..6d31280 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -218,15 +218,14 @@ void raft_server::handle_election_timeout()
 
     if (ctx_->params_->prevote_enabled_ && role_ == srv_role::follower)
     {
-        if (prevote_state_ && !prevote_state_->empty())
+        if (prevote_state_)
         {
-            l_->debug("Election timeout, but there is already a prevote ongoing, ignore this event");
-        }
-        else
-        {
-            l_->debug("Election timeout, start prevoting");
-            request_prevote();
+            // some of the responses of previous round may never arrive
+            prevote_state_->reset();
         }
+
+        l_->debug("Election timeout, start prevoting");
+        request_prevote();
     }
     else
     {
@@ -297,6 +296,8 @@ void raft_server::request_prevote()
             it->second->send_req(req, ex_resp_handler_);
         }
     }
+
+    restart_election_timer();
 }
 
 void raft_server::request_vote()
-- 
2.43.0


From 2f3adb15308352cdd85a1bc885cae898de91dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:01 +0000
Subject: [PATCH 17/50] fix: a follower that hears from the leader is not
 prevoting any more

---
 src/raft_server_req_handlers.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 7b820f6..1b66a42 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -101,6 +101,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         }
         else
         {
+            prevote_state_.reset(); // the leader is alive
             restart_election_timer();
         }
     }
@@ -320,6 +321,7 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
         }
         else
         {
+            prevote_state_.reset(); // the leader is alive
             restart_election_timer();
         }
     }
-- 
2.43.0


From b1a0c188781f3dfe3e4e679a1e17957fe89161aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:01 +0000
Subject: [PATCH 18/50] fix: adopt the term of a server that rejects a prevote,
 otherwise prevotes may be rejected forever

---
 src/raft_server_resp_handlers.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index a339e15..a261717 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -262,6 +262,12 @@ void raft_server::handle_prevote_resp(resp_msg& resp)
         return;
     }
 
+    // prevotes with an old term will be rejected forever
+    if (update_term(resp.get_term()))
+    {
+        return;
+    }
+
     {
         read_lock(peers_lock_);
         bool vote_added = prevote_state_->add_voted_server(resp.get_src());
-- 
2.43.0


From 643506f9e6413b963c7402b803ecfc715bb353fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:01 +0000
Subject: [PATCH 19/50] fix: an election timeout that expired just before
 winning the election must not stop the leader

---
 src/raft_server.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 6d31280..873a0ce 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -211,8 +211,8 @@ void raft_server::handle_election_timeout()
 
     if (role_ == srv_role::leader)
     {
-        l_->err("A leader should never encounter election timeout, illegal application state, stop the application");
-        ctx_->state_mgr_->system_exit(-1);
+        // the timer may have been expired before it was cancelled by the election
+        l_->info("election timeout while this server is already elected as leader, ignore it.");
         return;
     }
 
-- 
2.43.0


From a931b9b99a511b478779610571c0be07247e4be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:25 +0000
Subject: [PATCH 20/50] fix: committing a config must not hide a later config
 that is not committed yet

---
 src/raft_server.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 873a0ce..4280c59 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -935,6 +935,12 @@ void raft_server::commit_in_bg()
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
                     ctx_->state_mgr_->save_config(*new_conf);
                     config_changing_ = false;
+                    for (ulong i = sm_commit_index_ + 1; i < log_store_->next_slot() && !config_changing_; ++i)
+                    {
+                        // a later config is still in progress
+                        config_changing_ = log_store_->entry_at(i)->get_val_type() == log_val_type::conf;
+                    }
+
                     if (config_->get_log_idx() < new_conf->get_log_idx())
                     {
                         reconfigure(new_conf);
-- 
2.43.0


From f4d966d1a53647b9ac1282e065d5632d20f1d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:25 +0000
Subject: [PATCH 21/50] fix: a peer must outlive the requests it has sent

---
 include/peer.hxx | 2 +-
 src/peer.cxx     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/peer.hxx b/include/peer.hxx
index 9418c0e..f43c7a8 100644
--- a/include/peer.hxx
+++ b/include/peer.hxx
@@ -23,7 +23,7 @@
 
 namespace cornerstone
 {
-class peer
+class peer : public std::enable_shared_from_this<peer>
 {
 public:
     peer(ptr<srv_config>& config, const context& ctx, timer_task<peer&>::executor& hb_exec)
diff --git a/src/peer.cxx b/src/peer.cxx
index c87f893..b68d424 100644
--- a/src/peer.cxx
+++ b/src/peer.cxx
@@ -21,8 +21,9 @@ using namespace cornerstone;
 void peer::send_req(ptr<req_msg>& req, rpc_handler& handler)
 {
     ptr<rpc_result> pending = cs_new<rpc_result>(handler);
-    rpc_handler h = [this, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
-    { this->handle_rpc_result(req, pending, resp, ex); };
+    ptr<peer> self = shared_from_this(); // this peer could be removed before the response arrives
+    rpc_handler h = [self, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
+    { self->handle_rpc_result(req, pending, resp, ex); };
     rpc_->send(req, h);
 }
 
-- 
2.43.0


From 4d4d78f184bdaf927afdb2d31b7df6dd406b5131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:25 +0000
Subject: [PATCH 22/50] fix: the initial config must not be marked as the
 config at an index that may be overwritten

---
 src/raft_server.cxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 4280c59..5b98c62 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -449,8 +449,20 @@ void raft_server::become_leader()
 
     if (config_->get_log_idx() == 0)
     {
-        config_->set_log_idx(log_store_->next_slot());
-        bufptr conf_buf = config_->serialize();
+        // the config takes effect when it's committed, until then, this log entry may be overwritten
+        ulong prev_conf_idx = 0;
+        for (ulong i = log_store_->start_index(); i < log_store_->next_slot(); ++i)
+        {
+            if (log_store_->entry_at(i)->get_val_type() == log_val_type::conf)
+            {
+                prev_conf_idx = i;
+            }
+        }
+
+        ptr<cluster_config> init_conf = cs_new<cluster_config>(log_store_->next_slot(), prev_conf_idx);
+        init_conf->get_servers().insert(
+            init_conf->get_servers().end(), config_->get_servers().begin(), config_->get_servers().end());
+        bufptr conf_buf = init_conf->serialize();
         ptr<log_entry> entry(cs_new<log_entry>(state_->get_term(), std::move(conf_buf), log_val_type::conf));
         log_store_->append(entry);
         l_->info("save initial config to log store");
@@ -564,6 +576,7 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
             while (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() >= log_store_->start_index())
             {
                 ptr<log_entry> conf_log(log_store_->entry_at(conf->get_prev_log_idx()));
+                conf_log->get_buf().pos(0);
                 conf = cluster_config::deserialize(conf_log->get_buf());
             }
 
-- 
2.43.0


From d055d291c5940588b985a2d3ff1510895ba43156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:12 +0000
Subject: [PATCH 23/50] fix: the background committing thread must not miss a
 commit or the stop of the server

---
 include/raft_server.hxx |  1 +
 src/raft_server.cxx     | 30 ++++++++++++++++++++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 221745b..a9a98f6 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -125,6 +125,7 @@ private:
     bool config_changing_;
     bool catching_up_;
     bool stopping_;
+    bool commit_bg_stopped_;
     int32 steps_to_down_;
     std::atomic_bool snp_in_progress_;
     std::unique_ptr<context> ctx_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 5b98c62..4e949b4 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -56,6 +56,7 @@ raft_server::raft_server(context* ctx)
       config_changing_(false),
       catching_up_(false),
       stopping_(false),
+      commit_bg_stopped_(false),
       steps_to_down_(0),
       snp_in_progress_(),
       ctx_(ctx),
@@ -146,14 +147,19 @@ raft_server::raft_server(context* ctx)
 
 raft_server::~raft_server()
 {
+    {
+        auto_lock(commit_lock_);
+        stopping_ = true;
+        commit_cv_.notify_all();
+    }
+
+    {
+        // the background thread may need lock_ to finish its work
+        std::unique_lock<std::mutex> lock(stopping_lock_);
+        ready_to_stop_cv_.wait(lock, [this]() { return commit_bg_stopped_; });
+    }
+
     recur_lock(lock_);
-    stopping_ = true;
-    std::unique_lock<std::mutex> commit_lock(commit_lock_);
-    commit_cv_.notify_all();
-    std::unique_lock<std::mutex> lock(stopping_lock_);
-    commit_lock.unlock();
-    commit_lock.release();
-    ready_to_stop_cv_.wait(lock);
     if (election_task_)
     {
         scheduler_->cancel(election_task_);
@@ -547,6 +553,7 @@ void raft_server::commit(ulong target_idx)
 
     if (log_store_->next_slot() - 1 > sm_commit_index_ && quick_commit_idx_ > sm_commit_index_)
     {
+        auto_lock(commit_lock_);
         commit_cv_.notify_one();
     }
 }
@@ -918,13 +925,20 @@ void raft_server::commit_in_bg()
                 }
 
                 std::unique_lock<std::mutex> lock(commit_lock_);
-                commit_cv_.wait(lock);
+                commit_cv_.wait(
+                    lock,
+                    [this]()
+                    {
+                        return stopping_ ||
+                               (quick_commit_idx_ > sm_commit_index_ && sm_commit_index_ < log_store_->next_slot() - 1);
+                    });
                 if (stopping_)
                 {
                     lock.unlock();
                     lock.release();
                     {
                         auto_lock(stopping_lock_);
+                        commit_bg_stopped_ = true;
                         ready_to_stop_cv_.notify_all();
                     }
 
-- 
2.43.0


From 1e219fcfe2d61893de6b179effeae9fb6470c086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:41 +0000
Subject: [PATCH 24/50] fix: accept a repeated invitation while joining and
 ignore an outdated one after joining

---
 src/raft_server_req_handlers.cxx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 1b66a42..18536ec 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -651,7 +651,21 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
 
     if (catching_up_)
     {
+        // the response of previous invitation could be lost
         l_->info("this server is already in log syncing mode");
+        if (req.get_term() >= state_->get_term())
+        {
+            leader_ = req.get_src();
+            resp->accept(log_store_->next_slot());
+        }
+
+        return resp;
+    }
+
+    if (config_->get_log_idx() > 0 && config_->get_servers().size() > 1 && config_->get_server(id_) != nilptr)
+    {
+        // an outdated invitation must not reset a member of the cluster
+        l_->info("this server is already a member of a cluster, ignore the request");
         return resp;
     }
 
-- 
2.43.0


From 996b1b6fff822e56116fbe2489b99d562916eb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:41 +0000
Subject: [PATCH 25/50] fix: an outdated log pack must not discard newer logs
 of a joining server

---
 src/raft_server_req_handlers.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 18536ec..eb54944 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -575,8 +575,13 @@ ptr<resp_msg> raft_server::handle_log_sync_req(req_msg& req)
         return resp;
     }
 
-    log_store_->apply_pack(req.get_last_log_idx() + 1, entries[0]->get_buf());
-    commit(log_store_->next_slot() - 1);
+    // an outdated log pack must not discard the logs that are synced after it
+    if (req.get_last_log_idx() + 1 == log_store_->next_slot())
+    {
+        log_store_->apply_pack(req.get_last_log_idx() + 1, entries[0]->get_buf());
+        commit(log_store_->next_slot() - 1);
+    }
+
     resp->accept(log_store_->next_slot());
     return resp;
 }
-- 
2.43.0


From 30fec640e730a04987f4a51a0685fba906d6637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:10 +0000
Subject: [PATCH 26/50] fix: only the joining server's responses drive its join
 and no config is added while another one is pending

---
 src/raft_server_req_handlers.cxx  | 7 +++++++
 src/raft_server_resp_handlers.cxx | 6 +++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index eb54944..8b2607b 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -588,6 +588,13 @@ ptr<resp_msg> raft_server::handle_log_sync_req(req_msg& req)
 
 void raft_server::sync_log_to_new_srv(ulong start_idx)
 {
+    if (role_ != srv_role::leader || config_changing_)
+    {
+        l_->info("no longer a leader or another config change is in progress, give up adding the server");
+        srv_to_join_.reset();
+        return;
+    }
+
     // only sync committed logs
     int32 gap = (int32)(quick_commit_idx_ - start_idx);
     if (gap < ctx_->params_->log_sync_stop_gap_)
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index a261717..e903177 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -316,7 +316,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
     switch (resp->get_type())
     {
         case msg_type::sync_log_response:
-            if (srv_to_join_)
+            if (srv_to_join_ && srv_to_join_->get_id() == resp->get_src() && resp->get_accepted())
             {
                 // we are reusing heartbeat interval value to indicate when to stop retry
                 srv_to_join_->resume_hb_speed();
@@ -326,7 +326,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             }
             break;
         case msg_type::join_cluster_response:
-            if (srv_to_join_)
+            if (srv_to_join_ && srv_to_join_->get_id() == resp->get_src())
             {
                 if (resp->get_accepted())
                 {
@@ -361,7 +361,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             break;
         case msg_type::install_snapshot_response:
         {
-            if (!srv_to_join_)
+            if (!srv_to_join_ || srv_to_join_->get_id() != resp->get_src())
             {
                 l_->info("no server to join, the response must be very old.");
                 return;
-- 
2.43.0


From 64cf3c392033aac598609c17e5b9ce61ab1f74e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:10 +0000
Subject: [PATCH 27/50] fix: retry sending a snapshot to a joining server after
 a failure

---
 src/raft_server_resp_handlers.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index e903177..53dbce2 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -417,7 +417,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
     l_->debug(lstrfmt("receive an rpc error response from peer server, %s").fmt(err.what()));
     ptr<req_msg> req = err.req();
     if (req->get_type() == msg_type::sync_log_request || req->get_type() == msg_type::join_cluster_request ||
-        req->get_type() == msg_type::leave_cluster_request)
+        req->get_type() == msg_type::leave_cluster_request || req->get_type() == msg_type::install_snapshot_request)
     {
         ptr<peer> p;
         if (req->get_type() == msg_type::leave_cluster_request)
@@ -429,7 +429,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 p = pit->second;
             }
         }
-        else
+        else if (srv_to_join_ && srv_to_join_->get_id() == req->get_dst())
         {
             p = srv_to_join_;
         }
-- 
2.43.0


From ebd27190e0cb5fd469371d45c28acc2ce411e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:10 +0000
Subject: [PATCH 28/50] fix: a server that has joined the cluster must watch
 the leader

---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 4e949b4..b227923 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -977,6 +977,7 @@ void raft_server::commit_in_bg()
                     {
                         l_->info("this server is committed as one of cluster members");
                         catching_up_ = false;
+                        restart_election_timer();
                     }
                 }
 
-- 
2.43.0


From 7265f81e28a092a6072ccc4154e17fdffcbffa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:23 +0000
Subject: [PATCH 29/50] fix: a server that learns from a snapshot that it has
 joined the cluster is not joining any more

---
 src/raft_server_req_handlers.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 8b2607b..2a12e15 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -401,6 +401,12 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
                     req.get_snapshot().get_last_log_term(),
                     config_,
                     req.get_snapshot().size());
+                if (catching_up_ && config_->get_server(id_) != nilptr)
+                {
+                    l_->info("this server is committed as one of cluster members");
+                    catching_up_ = false;
+                }
+
                 restart_election_timer();
                 l_->info("snapshot is successfully applied");
             }
-- 
2.43.0


From ad1ccbcdf36db57368a0054489d8fafe8f3312ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:24 +0000
Subject: [PATCH 30/50] fix: a crash while installing a snapshot must not lose
 both the logs and the snapshot

---
 src/raft_server.cxx              | 15 +++++++
 src/raft_server_req_handlers.cxx | 71 ++++++++++++++++----------------
 2 files changed, 51 insertions(+), 35 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index b227923..3ce4ad6 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -115,6 +115,21 @@ raft_server::raft_server(context* ctx)
      * - 1) + Majority(S0) > S0 => Vote(A) < Majority(S0)
      * -|
      */
+    // this server may have crashed after a snapshot is applied but before the config is saved or the logs are compacted
+    if (last_snapshot_ && last_snapshot_->get_last_config()->get_log_idx() > config_->get_log_idx())
+    {
+        config_ = last_snapshot_->get_last_config();
+        ctx->state_mgr_->save_config(*config_);
+    }
+
+    if (last_snapshot_ && last_snapshot_->get_last_log_idx() >= log_store_->start_index() &&
+        (last_snapshot_->get_last_log_idx() >= log_store_->next_slot() ||
+         log_store_->term_at(last_snapshot_->get_last_log_idx()) != last_snapshot_->get_last_log_term()))
+    {
+        discard_conflict_logs(*last_snapshot_);
+        log_store_->compact(last_snapshot_->get_last_log_idx());
+    }
+
     for (ulong i = std::max(sm_commit_index_ + 1, log_store_->start_index()); i < log_store_->next_slot(); ++i)
     {
         ptr<log_entry> entry(log_store_->entry_at(i));
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 2a12e15..a0c2b35 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -375,46 +375,47 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
             }
 
             l_->debug("sucessfully receive a snapshot from leader");
-            discard_conflict_logs(req.get_snapshot());
-            if (log_store_->compact(req.get_snapshot().get_last_log_idx()))
+
+            // The state machine will not be able to commit anything before the snapshot is applied, so make this
+            // synchronously with election timer stopped as usually applying a snapshot may take a very long time
+            // The log store is compacted after that, otherwise, neither the logs nor the snapshot will be there if this
+            // server crashes in between
+            stop_election_timer();
+            if (!state_machine_->apply_snapshot(req.get_snapshot()))
             {
-                // The state machine will not be able to commit anything before the snapshot is applied, so make this
-                // synchronously with election timer stopped as usually applying a snapshot may take a very long time
-                stop_election_timer();
-                l_->info("successfully compact the log store, will now ask the statemachine to apply the snapshot");
-                if (!state_machine_->apply_snapshot(req.get_snapshot()))
-                {
-                    l_->info("failed to apply the snapshot after log compacted, to ensure the safety, will shutdown "
-                             "the system");
-                    ctx_->state_mgr_->system_exit(-1);
-                    ::exit(-1);
-                    return false;
-                }
-
-                reconfigure(req.get_snapshot().get_last_config());
-                ctx_->state_mgr_->save_config(*config_);
-                sm_commit_index_ = req.get_snapshot().get_last_log_idx();
-                quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
-                ctx_->state_mgr_->save_state(*state_);
-                last_snapshot_ = cs_new<snapshot>(
-                    req.get_snapshot().get_last_log_idx(),
-                    req.get_snapshot().get_last_log_term(),
-                    config_,
-                    req.get_snapshot().size());
-                if (catching_up_ && config_->get_server(id_) != nilptr)
-                {
-                    l_->info("this server is committed as one of cluster members");
-                    catching_up_ = false;
-                }
-
-                restart_election_timer();
-                l_->info("snapshot is successfully applied");
+                l_->info("failed to apply the snapshot, to ensure the safety, will shutdown the system");
+                ctx_->state_mgr_->system_exit(-1);
+                ::exit(-1);
+                return false;
             }
-            else
+
+            reconfigure(req.get_snapshot().get_last_config());
+            ctx_->state_mgr_->save_config(*config_);
+            sm_commit_index_ = req.get_snapshot().get_last_log_idx();
+            quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
+            ctx_->state_mgr_->save_state(*state_);
+            last_snapshot_ = cs_new<snapshot>(
+                req.get_snapshot().get_last_log_idx(),
+                req.get_snapshot().get_last_log_term(),
+                config_,
+                req.get_snapshot().size());
+            discard_conflict_logs(req.get_snapshot());
+            if (!log_store_->compact(req.get_snapshot().get_last_log_idx()))
             {
-                l_->err("failed to compact the log store after a snapshot is received, will ask the leader to retry");
+                l_->err("failed to compact the log store after a snapshot is applied, will shutdown the system");
+                ctx_->state_mgr_->system_exit(-1);
+                ::exit(-1);
                 return false;
             }
+
+            if (catching_up_ && config_->get_server(id_) != nilptr)
+            {
+                l_->info("this server is committed as one of cluster members");
+                catching_up_ = false;
+            }
+
+            restart_election_timer();
+            l_->info("snapshot is successfully applied");
         }
     }
     catch (...)
-- 
2.43.0


From 04d8bf213efdbe0f72f0f50b2ec11b6c73b79a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:09 +0000
Subject: [PATCH 31/50] fix: a response must not be given to another request of
 the same rpc client

---
 src/asio_service.cxx | 52 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index a8cebf1..d7b8c16 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -398,6 +398,22 @@ public:
 
 public:
     virtual void send(ptr<req_msg>& req, rpc_handler& when_done) __override__
+    {
+        {
+            // responses are not tagged, so only one request could be in progress at a time, the others need to wait
+            auto_lock(pending_lock_);
+            pending_.emplace_back(req, when_done);
+            if (pending_.size() > 1)
+            {
+                return;
+            }
+        }
+
+        this->send_now(req, when_done);
+    }
+
+private:
+    void send_now(ptr<req_msg>& req, rpc_handler& when_done)
     {
         ptr<asio_rpc_client> self(this->shared_from_this());
         if (!socket_.is_open())
@@ -420,7 +436,7 @@ public:
                         ptr<resp_msg> rsp;
                         ptr<rpc_exception> except(cs_new<rpc_exception>(
                             lstrfmt("failed to resolve host %s due to error %d").fmt(host_.c_str(), err.value()), req));
-                        when_done(rsp, except);
+                        this->complete(when_done, rsp, except);
                     }
                 });
         }
@@ -469,7 +485,26 @@ public:
         }
     }
 
-private:
+    void complete(rpc_handler& when_done, ptr<resp_msg>& rsp, ptr<rpc_exception>& except)
+    {
+        std::pair<ptr<req_msg>, rpc_handler> next;
+        {
+            auto_lock(pending_lock_);
+            pending_.pop_front();
+            if (!pending_.empty())
+            {
+                next = pending_.front();
+            }
+        }
+
+        if (next.first)
+        {
+            this->send_now(next.first, next.second);
+        }
+
+        when_done(rsp, except);
+    }
+
     void connected(
         ptr<req_msg>& req,
         rpc_handler& when_done,
@@ -478,14 +513,15 @@ private:
     {
         if (!err)
         {
-            this->send(req, when_done);
+            this->send_now(req, when_done);
         }
         else
         {
             ptr<resp_msg> rsp;
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to connect to remote socket %d").fmt(err.value()), req));
-            when_done(rsp, except);
+            socket_.close();
+            this->complete(when_done, rsp, except);
         }
     }
 
@@ -515,7 +551,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to send request to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            this->complete(when_done, rsp, except);
         }
     }
 
@@ -536,7 +572,7 @@ private:
             byte accepted_val = resp_buf->get_byte();
             ptr<resp_msg> rsp(cs_new<resp_msg>(term, (msg_type)msg_type_val, src, dst, nxt_idx, accepted_val == 1));
             ptr<rpc_exception> except;
-            when_done(rsp, except);
+            this->complete(when_done, rsp, except);
         }
         else
         {
@@ -544,7 +580,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to read response to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            this->complete(when_done, rsp, except);
         }
     }
 
@@ -553,6 +589,8 @@ private:
     asio::ip::tcp::socket socket_;
     std::string host_;
     std::string port_;
+    std::mutex pending_lock_;
+    std::list<std::pair<ptr<req_msg>, rpc_handler>> pending_;
 };
 } // namespace cornerstone
 
-- 
2.43.0


From 4d7109734dfaf1aa610c8178362d95b2ee2f6302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:37 +0000
Subject: [PATCH 32/50] fix: stopping the asio service must not miss the last
 flush of the loggers

---
 src/asio_service.cxx | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index d7b8c16..1ab5923 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -120,6 +120,7 @@ private:
     std::mutex logger_list_lock_;
     std::list<ptr<impls::fs_based_logger>> loggers_;
     bool stopping_;
+    bool flushed_;
     std::mutex stopping_lock_;
     std::condition_variable stopping_cv_;
     friend asio_service;
@@ -618,6 +619,7 @@ asio_service_impl::asio_service_impl()
       logger_list_lock_(),
       loggers_(),
       stopping_(false),
+      flushed_(false),
       stopping_lock_(),
       stopping_cv_()
 {
@@ -661,11 +663,17 @@ void asio_service_impl::worker_entry()
 
 void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
 {
-    if (continue_.load() == 1)
+    bool last_flush = false;
     {
-        log_flush_tm_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
-        log_flush_tm_.async_wait([self = shared_from_this()](asio::error_code err) mutable
-                                 { self->flush_all_loggers(err); });
+        // the timer is either armed before stop() cancels it or not armed at all
+        std::lock_guard<std::mutex> guard(stopping_lock_);
+        last_flush = stopping_;
+        if (!last_flush)
+        {
+            log_flush_tm_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
+            log_flush_tm_.async_wait([self = shared_from_this()](asio::error_code err) mutable
+                                     { self->flush_all_loggers(err); });
+        }
     }
 
     {
@@ -676,8 +684,10 @@ void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
         }
     }
 
-    if (stopping_)
+    if (last_flush)
     {
+        std::lock_guard<std::mutex> guard(stopping_lock_);
+        flushed_ = true;
         stopping_cv_.notify_all();
     }
 }
@@ -690,7 +700,7 @@ void asio_service_impl::stop()
         std::unique_lock<std::mutex> lock(stopping_lock_);
         stopping_ = true;
         log_flush_tm_.cancel();
-        stopping_cv_.wait(lock);
+        stopping_cv_.wait(lock, [this]() { return flushed_; });
         lock.unlock();
         lock.release();
     }
-- 
2.43.0


From a8992377d4ebce5f9c1cf0e46b93d4e84210159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:17 +0000
Subject: [PATCH 33/50] fix: an expired timer must not run a task that is
 scheduled again

---
 src/asio_service.cxx | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 1ab5923..deaa42c 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -598,15 +598,25 @@ private:
 using namespace cornerstone;
 using namespace cornerstone::impls;
 
+struct task_timer
+{
+    explicit task_timer(asio::io_service& io_svc) : timer_(io_svc), round_(0)
+    {
+    }
+
+    asio::steady_timer timer_;
+    std::atomic<ulong> round_; // the handlers of earlier rounds may be on the way when the task is scheduled again
+};
+
 void _free_timer_(void* ptr)
 {
-    asio::steady_timer* timer = static_cast<asio::steady_timer*>(ptr);
+    task_timer* timer = static_cast<task_timer*>(ptr);
     delete timer;
 }
 
-void _timer_handler_(ptr<delayed_task>& task, asio::error_code err)
+void _timer_handler_(ptr<delayed_task>& task, ulong round, asio::error_code err)
 {
-    if (!err)
+    if (!err && static_cast<task_timer*>(task->get_impl_context())->round_.load() == round)
     {
         task->execute();
     }
@@ -768,21 +778,24 @@ void asio_service::schedule(ptr<delayed_task>& task, int32 milliseconds)
 {
     if (task->get_impl_context() == nilptr)
     {
-        task->set_impl_context(new asio::steady_timer(impl_->io_svc_), &_free_timer_);
+        task->set_impl_context(new task_timer(impl_->io_svc_), &_free_timer_);
     }
+
+    task_timer* timer = static_cast<task_timer*>(task->get_impl_context());
+    ulong round = ++timer->round_;
     // ensure it's not in cancelled state
     task->reset();
 
-    asio::steady_timer* timer = static_cast<asio::steady_timer*>(task->get_impl_context());
-    timer->expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::milliseconds(milliseconds)));
-    timer->async_wait([task](const asio::error_code err) mutable { _timer_handler_(task, err); });
+    timer->timer_.expires_after(
+        std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::milliseconds(milliseconds)));
+    timer->timer_.async_wait([task, round](const asio::error_code err) mutable { _timer_handler_(task, round, err); });
 }
 
 void asio_service::cancel_impl(ptr<delayed_task>& task)
 {
     if (task->get_impl_context() != nilptr)
     {
-        static_cast<asio::steady_timer*>(task->get_impl_context())->cancel();
+        static_cast<task_timer*>(task->get_impl_context())->timer_.cancel();
     }
 }
 
-- 
2.43.0


From 8cc5e15187ae7a73d30c353f1eff105de414de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:23 +0000
Subject: [PATCH 34/50] fix: overwriting an entry before the log store buffer
 must drop the buffered entries

---
 src/fs_log_store.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index a19b2fb..7f5718e 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -128,6 +128,9 @@ void log_store_buffer::trim(ulong start)
     write_lock(lock_);
     if (start < start_idx_)
     {
+        // none of the entries is valid any more and the next one to append is for start
+        buf_.clear();
+        start_idx_ = start;
         return;
     }
 
-- 
2.43.0


From 6e4c213c7313c4b9785315785cb65fd1fe536cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:23 +0000
Subject: [PATCH 35/50] fix: log_entries must not return entries beyond the end
 of the range

---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 7f5718e..96d0ded 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -411,7 +411,7 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
             throw std::runtime_error("IO fails, data cannot be saved");
         }
 
-        lend = buffer_first_idx - start_idx_;
+        lend = std::min(buffer_first_idx, good_end) - start_idx_;
         idx_file_.seekg(lstart * sz_ulong);
         bufptr d_start_idx_buf(buffer::alloc(sz_ulong));
         idx_file_ >> *d_start_idx_buf;
-- 
2.43.0


From 88428edd20d82aa5fc6e751249f9bae1aa871677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:23 +0000
Subject: [PATCH 36/50] fix: replacing the last log entry by a shorter one must
 not leave the rest of the old one behind

---
 src/fs_log_store.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 96d0ded..99adb95 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -336,8 +336,9 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
     ulong ndata_len = data_file_.tellp();
     ulong nidx_len = idx_file_.tellp();
     idx_file_.seekp(0, std::fstream::end);
-    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len)
-    { // new index length is less than current file size, truncate it
+    data_file_.seekp(0, std::fstream::end);
+    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len || static_cast<ulong>(data_file_.tellp()) > ndata_len)
+    { // new index or data length is less than current file size, truncate it
         std::string idx_path = log_folder_ + LOG_INDEX_FILE;
         std::string data_path = log_folder_ + LOG_DATA_FILE;
         idx_file_.close();
@@ -614,7 +615,7 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
     ulong data_pos = data_file_.tellp();
     idx_file_.seekp(0, std::fstream::end);
     data_file_.seekp(0, std::fstream::end);
-    if (idx_pos < static_cast<ulong>(idx_file_.tellp()))
+    if (idx_pos < static_cast<ulong>(idx_file_.tellp()) || data_pos < static_cast<ulong>(data_file_.tellp()))
     {
         std::string idx_path = log_folder_ + LOG_INDEX_FILE;
         std::string data_path = log_folder_ + LOG_DATA_FILE;
-- 
2.43.0


From 13d4eeb53570d8b694ba5bad2f3bda565e2816cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:23 +0000
Subject: [PATCH 37/50] fix: the term of an entry that is being evicted from
 the log store buffer must not be read as zero

---
 src/fs_log_store.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 99adb95..c303fa9 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -486,9 +486,11 @@ ptr<log_entry> fs_log_store::entry_at(ulong index)
 
 ulong fs_log_store::term_at(ulong index)
 {
-    if (index >= buf_->first_idx() && index < buf_->last_idx())
+    // the entry may be evicted from the buffer by another thread at any time
+    ptr<log_entry> entry = (*buf_)[index];
+    if (entry)
     {
-        return buf_->get_term(index);
+        return entry->get_term();
     }
 
     {
-- 
2.43.0


From 9ef8415629d88f51fb38a12941f1c5478cf3181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:23 +0000
Subject: [PATCH 38/50] fix: buffer::get must not read beyond the end of the
 buffer

---
 src/buffer.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.cxx b/src/buffer.cxx
index 50678e6..26eb083 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -245,6 +245,11 @@ void buffer::put(const std::string& str)
 void buffer::get(bufptr& dst)
 {
     size_t sz = dst->size() - dst->pos();
+    if (size() - pos() < sz)
+    {
+        throw std::overflow_error("insufficient buffer available for the other buffer");
+    }
+
     ::memcpy(dst->data(), data(), sz);
     __mv_fw_block(this, sz);
 }
-- 
2.43.0


From a8f3904fb2e598ec211d265c51d566369476df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:21 +0000
Subject: [PATCH 39/50] fix: send all the blocks of a snapshot to a joining
 server

The next log index of the joining server was never set from its response to the
invitation, so that after the first block of a snapshot the leader continued with
packing logs from index zero.
---
 src/raft_server_resp_handlers.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 53dbce2..1b3142d 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -331,6 +331,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
                 if (resp->get_accepted())
                 {
                     l_->debug("new server confirms it will join, start syncing logs to it");
+                    srv_to_join_->set_next_log_idx(resp->get_next_idx());
                     sync_log_to_new_srv(resp->get_next_idx());
                 }
                 else
-- 
2.43.0


From 39547a106fdab66e453cd7a7de0a3b6241e94362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:21 +0000
Subject: [PATCH 40/50] fix: ignore the responses of an earlier join attempt

When a server was asked to be added again while it was still joining, a response
to a request of the first attempt was taken for one of the second: the leader
exited as there was no snapshot sync context, or skipped snapshot blocks.
---
 include/raft_server.hxx          |  1 +
 src/raft_server_req_handlers.cxx | 32 +++++++++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index a9a98f6..01d0e08 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -110,6 +110,7 @@ private:
     int get_snapshot_sync_block_size() const;
     void on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr<std::exception>& err);
     void on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req);
+    void send_req_to_new_srv(ptr<req_msg>& req);
     ulong term_for_log(ulong log_idx);
     void commit_in_bg();
     ptr<async_result<bool>> send_msg_to_leader(ptr<req_msg>& req);
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index a0c2b35..7f327e5 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -464,8 +464,34 @@ void raft_server::rollback_logs(ulong from_idx)
 
 void raft_server::on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req)
 {
+    recur_lock(lock_);
     l_->debug(sstrfmt("retry the request %s for %d").fmt(__msg_type_str[req->get_type()], p->get_id()));
-    p->send_req(req, ex_resp_handler_);
+    if (req->get_type() == msg_type::leave_cluster_request)
+    {
+        p->send_req(req, ex_resp_handler_);
+    }
+    else if (p == srv_to_join_)
+    {
+        send_req_to_new_srv(req);
+    }
+}
+
+void raft_server::send_req_to_new_srv(ptr<req_msg>& req)
+{
+    ptr<peer> p(srv_to_join_);
+    rpc_handler handler = [this, p](ptr<resp_msg>& resp, const ptr<rpc_exception>& err)
+    {
+        recur_lock(lock_);
+        if (p == srv_to_join_)
+        {
+            handle_ext_resp(resp, err);
+        }
+        else
+        {
+            l_->info(sstrfmt("drop the response from server %d for an earlier join request").fmt(p->get_id()));
+        }
+    };
+    p->send_req(req, handler);
 }
 
 ptr<resp_msg> raft_server::handle_rm_srv_req(req_msg& req)
@@ -641,7 +667,7 @@ void raft_server::sync_log_to_new_srv(ulong start_idx)
             cs_new<log_entry>(state_->get_term(), std::move(log_pack), log_val_type::log_pack));
     }
 
-    srv_to_join_->send_req(req, ex_resp_handler_);
+    send_req_to_new_srv(req);
 }
 
 void raft_server::invite_srv_to_join_cluster()
@@ -655,7 +681,7 @@ void raft_server::invite_srv_to_join_cluster()
         log_store_->next_slot() - 1,
         quick_commit_idx_));
     req->log_entries().push_back(cs_new<log_entry>(state_->get_term(), config_->serialize(), log_val_type::conf));
-    srv_to_join_->send_req(req, ex_resp_handler_);
+    send_req_to_new_srv(req);
 }
 
 ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
-- 
2.43.0


From c49e2ec685e62f377aae60a523b7f35cbbfe607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:13 +0000
Subject: [PATCH 41/50] fix: grant prevotes while joining the cluster

A server that is still joining has no election timer running, so in defensive mode
it denied prevotes forever. If it was already a member needed for a quorum, no leader could be elected
any more.
---
 src/raft_server_req_handlers.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 7f327e5..e5718fa 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -228,7 +228,8 @@ ptr<resp_msg> raft_server::handle_prevote_req(req_msg& req)
     if (ctx_->params_->defensive_prevote_)
     {
         // In defensive mode, server will deny the prevote when it's operating well.
-        grant = grant && prevote_state_;
+        // A server that is still joining has no election timer to tell whether it's operating well.
+        grant = grant && (prevote_state_ || catching_up_);
     }
 
     if (grant)
-- 
2.43.0


From 9293064ee59444d290b4466d86950e5761e69798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:50 +0000
Subject: [PATCH 42/50] fix: do not apply the logs before the last snapshot
 after a restart

A snapshot may end at a config, which the state machine is not told about. After a
restart the server then tried to apply logs that were already compacted and exited.
---
 src/raft_server.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 3ce4ad6..66c0542 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -130,6 +130,13 @@ raft_server::raft_server(context* ctx)
         log_store_->compact(last_snapshot_->get_last_log_idx());
     }
 
+    if (last_snapshot_ && last_snapshot_->get_last_log_idx() > sm_commit_index_)
+    {
+        // the state machine may not count the configs, the logs before the snapshot may have been compacted
+        sm_commit_index_ = last_snapshot_->get_last_log_idx();
+        quick_commit_idx_ = last_snapshot_->get_last_log_idx();
+    }
+
     for (ulong i = std::max(sm_commit_index_ + 1, log_store_->start_index()); i < log_store_->next_slot(); ++i)
     {
         ptr<log_entry> entry(log_store_->entry_at(i));
-- 
2.43.0


From bfc4c4983f3b913fd60c1268c9bbcf5f47d010c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:38 +0000
Subject: [PATCH 43/50] fix: a candidate grants prevotes in defensive mode

A candidate that cannot win denied all prevotes, so that nobody else could
start an election when its vote is needed for the majority.
---
 src/raft_server_req_handlers.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index e5718fa..71aa05b 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -228,8 +228,9 @@ ptr<resp_msg> raft_server::handle_prevote_req(req_msg& req)
     if (ctx_->params_->defensive_prevote_)
     {
         // In defensive mode, server will deny the prevote when it's operating well.
-        // A server that is still joining has no election timer to tell whether it's operating well.
-        grant = grant && (prevote_state_ || catching_up_);
+        // A server that is still joining has no election timer to tell whether it's operating well, and a candidate
+        // has not heard from a leader either.
+        grant = grant && (prevote_state_ || catching_up_ || role_ == srv_role::candidate);
     }
 
     if (grant)
-- 
2.43.0


From ada52c0422abe3f640a4c366f1577ecc5e72c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:30 +0000
Subject: [PATCH 44/50] fix: do not count prevotes of servers that are not
 members any more

---
 src/raft_server_resp_handlers.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 1b3142d..9b8460b 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -270,6 +270,12 @@ void raft_server::handle_prevote_resp(resp_msg& resp)
 
     {
         read_lock(peers_lock_);
+        if (peers_.find(resp.get_src()) == peers_.end())
+        {
+            l_->info(sstrfmt("Peer %d is not a member any more, ignore its prevote").fmt(resp.get_src()));
+            return;
+        }
+
         bool vote_added = prevote_state_->add_voted_server(resp.get_src());
         if (!vote_added)
         {
-- 
2.43.0


From b5a02969721845420d50b3fd6938f8f099e0b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:30 +0000
Subject: [PATCH 45/50] fix: keep the saved config when old logs are applied
 again after a restart

---
 src/raft_server.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 66c0542..12c370d 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -982,7 +982,12 @@ void raft_server::commit_in_bg()
                     log_entry->get_buf().pos(0);
                     ptr<cluster_config> new_conf = cluster_config::deserialize(log_entry->get_buf());
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
-                    ctx_->state_mgr_->save_config(*new_conf);
+                    if (config_->get_log_idx() <= new_conf->get_log_idx())
+                    {
+                        // logs applied again after a restart must not bring an outdated config back
+                        ctx_->state_mgr_->save_config(*new_conf);
+                    }
+
                     config_changing_ = false;
                     for (ulong i = sm_commit_index_ + 1; i < log_store_->next_slot() && !config_changing_; ++i)
                     {
-- 
2.43.0


From 184da1a9489b18ac00c7a8428ef19bc7dabb6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:48 +0000
Subject: [PATCH 46/50] fix: do not look for a config in logs that a joining
 server does not have yet

---
 src/raft_server.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 12c370d..e36a4c7 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -604,6 +604,13 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
             ptr<cluster_config> conf(config_);
             while (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() >= log_store_->start_index())
             {
+                if (conf->get_prev_log_idx() >= log_store_->next_slot())
+                {
+                    // this server is joining the cluster, the logs that tell the config are yet to come
+                    snp_in_progress_.store(false);
+                    return;
+                }
+
                 ptr<log_entry> conf_log(log_store_->entry_at(conf->get_prev_log_idx()));
                 conf_log->get_buf().pos(0);
                 conf = cluster_config::deserialize(conf_log->get_buf());
-- 
2.43.0


From f69ce31eef545a3b848a28023666463c36fa74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:44 +0000
Subject: [PATCH 47/50] fix: a config covered by an installed snapshot is not
 in progress any more

---
 src/raft_server_req_handlers.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 71aa05b..59183bd 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -410,6 +410,13 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
                 return false;
             }
 
+            // the config that was in progress could have been covered by the snapshot
+            config_changing_ = false;
+            for (ulong i = sm_commit_index_ + 1; i < log_store_->next_slot() && !config_changing_; ++i)
+            {
+                config_changing_ = log_store_->entry_at(i)->get_val_type() == log_val_type::conf;
+            }
+
             if (catching_up_ && config_->get_server(id_) != nilptr)
             {
                 l_->info("this server is committed as one of cluster members");
-- 
2.43.0


From 4eeb8a7006d6ab52493c263dad9aa73a08c62294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:11 +0000
Subject: [PATCH 48/50] fix: accept an append entries request that starts in
 the compacted log entries

---
 src/raft_server_req_handlers.cxx | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 59183bd..e18c71c 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -112,17 +112,10 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     // log_store_->next_slot() for the leader to quick jump to the index that might aligned
     ptr<resp_msg> resp(cs_new<resp_msg>(
         state_->get_term(), msg_type::append_entries_response, id_, req.get_src(), log_store_->next_slot()));
-    bool log_okay = req.get_last_log_idx() < log_store_->next_slot();
-    if (log_okay && req.get_last_log_idx() < log_store_->start_index())
-    {
-        // the log entry is compacted, it can be checked only if it's the last one in last snapshot
-        ptr<snapshot> last_snapshot(state_machine_->last_snapshot());
-        log_okay = req.get_last_log_idx() + 1 == log_store_->start_index() &&
-                   (req.get_last_log_idx() == 0 ||
-                    (last_snapshot && last_snapshot->get_last_log_idx() == req.get_last_log_idx()));
-    }
-
-    log_okay = log_okay && req.get_last_log_term() == term_for_log(req.get_last_log_idx());
+    // compacted log entries are committed, the leader has the same ones
+    bool log_okay = req.get_last_log_idx() < log_store_->next_slot() &&
+                    (req.get_last_log_idx() < log_store_->start_index() ||
+                     req.get_last_log_term() == term_for_log(req.get_last_log_idx()));
     if (req.get_term() < state_->get_term() || !log_okay)
     {
         return resp;
@@ -136,7 +129,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         size_t log_idx = 0;
         while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
         {
-            if (log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
+            if (idx < log_store_->start_index() ||
+                log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
             {
                 idx++;
                 log_idx++;
-- 
2.43.0


From 8b79009cbff60e5c000dda4603d91e4f4a3f5e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:35 +0000
Subject: [PATCH 49/50] fix: a failed compaction puts the data file back where
 it was

---
 src/fs_log_store.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index c303fa9..e9a8429 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -826,7 +826,7 @@ bool fs_log_store::compact(ulong last_log_index)
     idx_bak_file.seekg(0);
     data_bak_file.seekg(0);
     start_idx_bak_file.seekg(0);
-    data_file_.open(data_bak_path, std::fstream::out);
+    data_file_.open(data_file_path, std::fstream::out);
     data_file_.close();
     data_file_.open(data_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
     idx_file_.open(idx_file_path, std::fstream::out);
@@ -841,8 +841,12 @@ bool fs_log_store::compact(ulong last_log_index)
         throw std::runtime_error("IO error, fails to restore files back.");
     }
 
-    data_file_ << data_bak_file.rdbuf();
-    idx_file_ << idx_bak_file.rdbuf();
+    if (entries_in_store_ > 0) // inserting nothing is a failure for a stream
+    {
+        data_file_ << data_bak_file.rdbuf();
+        idx_file_ << idx_bak_file.rdbuf();
+    }
+
     start_idx_file_ << start_idx_bak_file.rdbuf();
     data_file_.flush();
     idx_file_.flush();
-- 
2.43.0


From 530377b78340c5c1598a87de155ec29c00b6214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:40 +0000
Subject: [PATCH 50/50] fix: stopping a rpc listener must not race with its
 next accept

---
 src/asio_service.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index deaa42c..7c3643d 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -314,6 +314,7 @@ public:
         : io_svc_(io),
           handler_(),
           acceptor_(io, asio::ip::tcp::endpoint(asio::ip::tcp::v4(), port)),
+          acceptor_lock_(),
           active_sessions_(),
           session_lock_(),
           l_(l)
@@ -323,6 +324,7 @@ public:
 
         public : virtual void stop() override
     {
+        auto_lock(acceptor_lock_);
         acceptor_.close();
     }
 
@@ -335,6 +337,8 @@ public:
 private:
     void start()
     {
+        // the acceptor could be closed by another thread
+        auto_lock(acceptor_lock_);
         if (!acceptor_.is_open())
         {
             return;
@@ -377,6 +381,7 @@ private:
     asio::io_service& io_svc_;
     ptr<msg_handler> handler_;
     asio::ip::tcp::acceptor acceptor_;
+    std::mutex acceptor_lock_;
     std::vector<ptr<rpc_session>> active_sessions_;
     std::mutex session_lock_;
     ptr<logger> l_;
-- 
2.43.0

