#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
S="src/raft_server.cxx"; Q="src/raft_server_req_handlers.cxx"; R="src/raft_server_resp_handlers.cxx"
P=[]
def prop(id,title,stmt,over,qtext,why,files,state,mech,obs,hook="none"):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},
      "why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
                 "mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}})
SCHED=["schedules","crash_points","fault_sequences"]
WHY="The tests run one or two happy-path schedules with real timers; message loss, duplication, delay, reordering and crash points cannot be enumerated by them."
prop("C01","At most one server acts as leader in any term",
 "In any execution, no two servers ever act as leader in the same term. A server starts acting as leader only after a majority of the members of its configuration, itself included, granted it their vote in that term, each member counted at most once.",
 SCHED,"every interleaving of timeouts, message deliveries, losses, duplicates, late replies, crashes and restarts of 1-5 servers",WHY,
 [S,Q,R],[("state_","current term and vote",S),("votes_granted_/voted_servers_","election tally",S),("role_","role",S)],
 [("become_candidate/request_vote",S),("handle_vote_req",Q),("handle_voting_resp",R)],
 ["raft_event::become_leader","append_entries/install_snapshot requests sent","vote responses returned by process_req"])
prop("C02","Terms never go back and a vote is durable before anyone hears of it",
 "The persisted term of a server that is already a member never decreases, and for each term a server gives its vote to at most one candidate, across crashes and restarts. Every message a server sends carries a term it has already persisted, and a vote request or a granted vote is only sent when the corresponding vote is persisted.",
 SCHED,"every crash point between any two storage operations and message sends, every schedule",WHY,
 [S,Q,"include/srv_state.hxx"],[("state_","term and voted_for","include/srv_state.hxx")],
 [("update_term",S),("become_candidate/request_vote",S),("handle_vote_req",Q)],
 ["state_mgr::save_state","rpc_client::send","process_req return"])
prop("C03","A new leader holds every committed entry",
 "Whenever a server becomes leader, its log contains every entry that was committed in an earlier term. A server grants its vote only to a candidate of its own term whose log is at least as up to date as its own (last term first, then length), also when its own log has been compacted down to a snapshot.",
 SCHED,"every schedule of elections, replication, compaction and crashes",WHY,
 [S,Q,R],[("log_store_","the log","include/log_store.hxx"),("last_snapshot_","last snapshot",S)],
 [("handle_vote_req",Q),("request_vote",S),("handle_voting_resp",R)],["vote responses","raft_event::become_leader","log_store contents"])
prop("C04","Logs that agree on an entry agree on everything before it",
 "If the logs of two servers contain an entry with the same index and term, then the two logs hold identical entries (term, type and content) at that index and at every earlier index. A follower acknowledges an append only if the preceding entry matches the leader's and all entries of the request are then stored, and the acknowledged position is exactly the end of what was sent.",
 SCHED,"every schedule, including delayed, duplicated and reordered append requests from current and deposed leaders",WHY,
 [S,Q],[("log_store_","the log","include/log_store.hxx")],[("handle_append_entries",Q),("create_append_entries_req",S)],
 ["log_store contents after every step","append responses"])
prop("C05","All servers apply the same entries in the same order, without gaps",
 "The sequence of commands any server hands to its state machine is, by index, identical on all servers: each index is applied in increasing order without gaps or repetition (continuing from the index the state machine reports after a restart or a snapshot), and the command applied is the one in the log at that index. Only entries that are committed are ever applied.",
 SCHED,"every schedule, crash and restart, including slow background application",WHY,
 [S,Q],[("sm_commit_index_/quick_commit_idx_","applied and commit positions",S)],[("commit_in_bg",S),("commit",S)],
 ["state_machine::commit","state_machine::apply_snapshot"])
prop("C06","An entry is committed only when a majority stores it",
 "The commit position a leader announces or applies never exceeds what is durably stored, in the leader's version, on a majority of the members of its configuration, and a leader only concludes this from an entry of its own term. A follower never treats an entry as committed beyond what the leader announced and beyond what the request in question confirmed to match.",
 SCHED,"every schedule including stale, duplicated and reordered acknowledgements and leader changes",WHY,
 [S,R,Q],[("matched_idx_","acknowledged position of a peer","include/peer.hxx"),("quick_commit_idx_","commit position",S)],
 [("handle_append_entries_resp",R),("commit",S),("handle_append_entries",Q),("handle_install_snapshot_resp",R)],
 ["commit index in append requests","state_machine::commit","log_store contents of all servers"])
prop("C07","Entries are only discarded when they conflict with the leader's log",
 "A leader never changes or removes entries of its own log, it only adds entries of its own term at the end. A follower changes its log only on behalf of a leader of its current term and drops an entry only if the leader's request holds a conflicting entry at or before that index; entries that match, and entries beyond a matching request, stay; a rejected request changes nothing.",
 SCHED,"every schedule, including duplicated and reordered append requests",WHY,
 [Q,S],[("log_store_","the log","include/log_store.hxx")],[("handle_append_entries",Q),("handle_cli_req",Q),("become_leader",S)],
 ["log_store contents after every step"])
prop("C08","Every pre-committed command is committed or rolled back, in step with the log",
 "Whenever a command enters a server's log through a client request or an append, the state machine is told with a pre-commit for that index and content, and whenever a command is removed from the log it is told with a rollback of exactly that index and content before another command takes the index. Nothing is rolled back that was not removed and nothing applied is ever rolled back.",
 SCHED,"every schedule with conflicting logs of any length",WHY,
 [Q,S],[("state_machine_","user state machine","include/state_machine.hxx")],[("handle_append_entries overwrite loop",Q),("handle_cli_req",Q),("replicate_log",S)],
 ["state_machine::pre_commit","state_machine::rollback","log_store contents"])
prop("C09","Membership changes one server at a time, on top of the latest configuration",
 "A leader adds a new configuration to the log only while it is leader and while no earlier configuration in its log is still uncommitted, and the new configuration differs from the latest one by exactly the server being added or removed and names the latest one as its predecessor. Every member ends up saving and using the committed configurations in log order.",
 SCHED+["histories"],"every schedule of add/remove requests, retries, elections, crashes",WHY,
 [S,Q,R],[("config_/config_changing_","current configuration and in-flight flag",S)],
 [("sync_log_to_new_srv/rm_srv_from_cluster",Q),("reconfigure/commit_in_bg",S),("handle_ext_resp/handle_ext_resp_err",R)],
 ["conf entries in log_store","state_mgr::save_config","add/remove responses"])
prop("C10","A joining server gets the exact log and does not vote before it is a member",
 "A new server (one with an empty store that was never a member) that is being added receives a log identical to the leader's committed log (by log packs or a snapshot followed by log packs) and neither starts an election nor is counted in any majority until the configuration containing it is committed. An accepted add request for a reachable server completes if the leader stays in office: the server becomes a member.",
 SCHED+["configurations"],"every batch size, gap, snapshot state and message schedule of the join protocol",WHY,
 [Q,R,S],[("srv_to_join_/catching_up_","join state",S)],[("sync_log_to_new_srv",Q),("handle_log_sync_req",Q),("handle_join_cluster_req",Q)],
 ["log_store contents of the joiner","messages sent by the joiner","configurations saved"])
prop("C11","Removing a server takes effect once and only for that server",
 "An accepted remove request for a non-leader member leads to a configuration without it, and only to that; the leader itself and unknown servers are refused. The removed server stops itself after it learned of its removal or had been told to leave and heard nothing more, while no other server does.",
 SCHED+["histories"],"every schedule of removal, with reachable and unreachable targets",WHY,
 [Q,R,S],[("steps_to_down_","countdown of a leaving server",S)],[("handle_rm_srv_req/rm_srv_from_cluster/handle_leave_cluster_req",Q),("handle_ext_resp_err",R),("reconfigure",S)],
 ["state_mgr::system_exit","state_mgr::save_config","remove responses"])
prop("C12","An installed snapshot is complete, exact and only moves a server forward",
 "A snapshot that a server hands to its state machine as complete consists of exactly the bytes of one leader snapshot, every byte written at its offset, with the index, term and configuration that snapshot stands for. Installing never moves the applied position backwards, and afterwards the server continues exactly after the snapshot's last index with the snapshot's configuration.",
 SCHED+["configurations"],"every block size, snapshot size, loss/duplication/reordering of chunks, leader change in mid transfer",WHY,
 [Q,S,R],[("snapshot_sync_ctx","transfer position","include/snapshot_sync_ctx.hxx")],[("create_sync_snapshot_req",S),("handle_install_snapshot_req/handle_snapshot_sync_req",Q),("handle_install_snapshot_resp",R)],
 ["state_machine::save_snapshot_data/apply_snapshot","install_snapshot responses"])
prop("C13","Log compaction removes only what a completed snapshot covers",
 "A server compacts its log only up to an index covered by a snapshot its state machine reported as created (or one it installed), and keeps at least the configured number of reserved entries before the snapshot index. A snapshot is requested only for an applied index with the matching term and the configuration in force at that index, one at a time and no closer than the configured distance to the previous one or to the start of the log; it is requested with the first command applied at that distance, and once it is created the log is compacted up to the reserved entries.",
 SCHED+["configurations"],"every distance/reserve configuration, slow or failing snapshot creation, membership changes",WHY,
 [S],[("last_snapshot_/snp_in_progress_","snapshot state",S)],[("snapshot_and_compact/on_snapshot_completed",S)],
 ["state_machine::create_snapshot","log_store::compact"])
prop("C14","A server that fell behind always catches up",
 "Once the network is reliable again and there is a stable leader, every member's log becomes identical to the leader's and everything committed is applied there, however far it is behind and whatever its log holds: missing entries, conflicting entries, an empty log, or a position already compacted away on the leader so that a snapshot is needed.",
 SCHED+["configurations"],"every reachable divergent state followed by a fair schedule",WHY,
 [S,R,Q],[("next_log_idx_","next index to send","include/peer.hxx")],[("create_append_entries_req",S),("handle_append_entries_resp/handle_install_snapshot_resp",R)],
 ["log_store contents and applied index at the end of a fair suffix"])
prop("C15","The cluster makes progress once faults stop",
 "From every reachable state in which no running member is being removed, if from then on a majority of the members is running, messages are delivered in time and timers fire, then a leader is elected within a bounded number of election timeouts and stays leader, and a client request sent to it is committed and applied by every running member. This holds with and without pre-vote.",
 SCHED+["configurations"],"every reachable state (faults, crashes, partitions) followed by a fair schedule",WHY,
 [S,Q,R],[("election_task_","election timer",S),("busy_flag_/hb_task_","replication liveness","include/peer.hxx")],[("restart_election_timer/handle_election_timeout/handle_hb_timeout",S)],
 ["raft_event::become_leader","state_machine::commit in a fair suffix"])
prop("C16","Pre-vote keeps a server from disturbing a healthy cluster",
 "With pre-vote enabled a follower raises its term only after a majority of the members, itself included, told it that they would vote for it; asking for or granting a pre-vote changes neither term nor vote of anyone. In defensive mode a server that hears from a leader refuses pre-votes, and in any mode it refuses those with an older term or a less up-to-date log.",
 SCHED,"every schedule with pre-vote enabled, defensive and not",WHY,
 [S,Q,R],[("prevote_state_","pre-vote tally","include/srv_state.hxx")],[("request_prevote",S),("handle_prevote_req",Q),("handle_prevote_resp",R)],
 ["prevote responses","state_mgr::save_state","vote requests sent"])
prop("C17","Client commands are accepted only by a live leader and keep their order",
 "A server accepts client commands exactly while it is leader and heard from a majority within twice the upper election timeout; it then appends exactly the given commands, each once and in the given order, with its current term. Every other server leaves its log alone, refuses and names the leader it knows; forwarding a request reports exactly the leader's verdict.",
 SCHED+["inputs"],"every batch of commands and every schedule, several servers in one process",WHY,
 [Q,S],[("leader_","known leader",S),("last_resp_","last response of a peer","include/peer.hxx")],[("handle_cli_req",Q),("is_leader/replicate_log/send_msg_to_leader",S)],
 ["client responses","log_store contents","is_leader()","async results"])
prop("C18","A restarted server continues from what it had persisted",
 "After a crash at any point and a restart from its persisted term, vote, configuration, log and state machine, a server behaves as a follower with exactly that state: it uses the saved configuration, applies the log from the index after the one its state machine reports, and nothing it acknowledged before is lost.",
 SCHED,"every crash point before or after any storage operation",WHY,
 [S],[("sm_commit_index_/config_changing_","recovered positions",S)],[("raft_server constructor",S)],
 ["state after restart","messages and applications after restart"])
prop("C19","The file log store behaves like an indexed log for every buffer size",
 "For every sequence of appends, overwrites, range reads, term reads, packs, pack applications, compactions and reopenings, every read of the file log store returns exactly what a plain in-memory indexed log would return, independent of the size (at least one entry, or unbounded) of its in-memory buffer. Overwriting an entry drops all entries after it; a compaction that fails because files cannot be removed or truncated says so and leaves the log as it was; reading existing entries in one thread while another thread appends returns the same as without the other thread.",
 ["histories","configurations"],"every sequence of operations with every argument, every buffer size","tests use one random sequence with a large buffer",
 ["src/fs_log_store.cxx","include/fs_log_store.hxx"],[("buf_/idx_file_/data_file_/start_idx_","cached tail and files","include/fs_log_store.hxx")],[("append/write_at/log_entries/entry_at/term_at/compact","src/fs_log_store.cxx")],
 ["public log_store interface"])
prop("C20","Everything the file log store acknowledged is there after it is reopened",
 "After any sequence of operations, closing or abandoning the store and opening it again on the same folder yields the same start index, next slot, entries and terms as before.",
 ["histories","crash_points"],"every history, reopening after every operation, with or without a clean close","tests reopen once after one clean close",
 ["src/fs_log_store.cxx"],[("log_store.idx/.dat/.sti","files","src/fs_log_store.cxx")],[("constructor/close/compact","src/fs_log_store.cxx")],
 ["public log_store interface after reopening"])
prop("C21","A log pack reproduces the packed entries exactly",
 "Packing a non-empty range of entries in one store and applying the pack at the same index, within the other's log or right after it, leaves that other store with exactly the packed entries from that index on, nothing after them, and everything before them unchanged, for every range, content and prior content of either store, also after compaction.",
 ["histories","inputs"],"every pair of store histories and every range","tests apply one pack to an empty store",
 ["src/fs_log_store.cxx"],[("pack format","idx offsets and data block","src/fs_log_store.cxx")],[("pack/apply_pack","src/fs_log_store.cxx")],
 ["public log_store interface"])
prop("C22","An asynchronous result is delivered once, with its value, to every waiter",
 "A result that is set once and has at most one registered handler: for every interleaving of setting it, registering the handler and waiting for it, the registered handler runs exactly once with the value and error that were set, and a waiter returns that value (or throws that error) and never returns before it was set, also under spurious wake-ups.",
 ["schedules"],"every interleaving of setter, handler registration and any number of waiters","thread interleavings and spurious wake-ups cannot be forced by a unit test",
 ["include/async.hxx"],[("has_result_/handler_/result_","completion state","include/async.hxx")],[("when_ready/set_result/get","include/async.hxx")],
 ["handler invocations","get() return"])
prop("C23","A scheduled task runs once, not early, and never after it was cancelled",
 "A task given to the scheduler runs exactly once per scheduling, not before its delay has passed, unless it is cancelled or scheduled anew first; once cancel has returned, or schedule has returned, the earlier scheduling does not begin to run any more; a cancelled or finished task can be scheduled again and then runs after the new delay only. The calls for one task are made by one thread at a time.",
 ["schedules","histories"],"every sequence of schedule, cancel and reschedule with every relation of delays","tests schedule two timers",
 ["src/asio_service.cxx","include/delayed_task.hxx","include/delayed_task_scheduler.hxx"],[("cancelled_/impl_ctx_","task state","include/delayed_task.hxx")],[("asio_service::schedule/cancel_impl/_timer_handler_","src/asio_service.cxx")],
 ["task executions with their times"])
prop("C24","The TCP transport delivers messages unchanged and completes every call once",
 "A request sent through the RPC client arrives at the server's handler with the same type, source, destination, term, indices and entries, and the response comes back unchanged to the call it answers, for every size and content; each call completes exactly once, with the response or with an error when the peer is missing or fails; once the peer serves again, at most one more call of each client fails.",
 ["inputs","fault_sequences"],"every message type, field value and payload size; servers that are absent, or stop or break the connection in mid call","tests send a handful of small messages",
 ["src/asio_service.cxx"],[("wire format","header, log data","src/asio_service.cxx")],[("asio_rpc_client::send/sent/response_read","src/asio_service.cxx"),("rpc_session","src/asio_service.cxx")],
 ["message handler input","rpc handler invocations"])
prop("C25","Stopping a server or the service terminates and leaves nothing running",
 "Destroying a server terminates for every interleaving with its background application thread, and from then on it applies nothing more and none of its election or heartbeat timers stays scheduled; stopping the I/O service (not from one of its own workers) returns, whatever is in flight, and its worker threads end once its listeners are stopped, its clients released and its timers over.",
 ["schedules"],"every interleaving of shutdown with background application","a lost wake-up needs a particular interleaving",
 [S,"src/asio_service.cxx"],[("stopping_/commit_cv_/ready_to_stop_cv_","shutdown handshake",S)],[("~raft_server/commit_in_bg",S),("asio_service_impl::stop/worker_entry","src/asio_service.cxx")],
 ["destructor return","state_machine::commit after it"])
prop("C26","The file logger writes every enabled line once, complete and in order",
 "Every line logged at or above the configured level appears exactly once and unbroken in the log file, lines of one thread in the order they were logged, and lines below the level do not appear; nothing is lost when the service stops or the logger is destroyed.",
 ["schedules","inputs"],"every level, line content and interleaving of logging threads with flushing","tests log four lines",
 ["src/asio_service.cxx"],[("buffer_/fs_","pending output","src/asio_service.cxx")],[("fs_based_logger::write_log/flush","src/asio_service.cxx"),("asio_service_impl::flush_all_loggers","src/asio_service.cxx")],
 ["log file contents"])
prop("C27","Buffers and serialized objects round-trip for every size and value",
 "Whatever sequence of values is put into a buffer is read back unchanged with the positions advancing by exactly the encoded sizes, for small and large buffers alike; a put or get that does not fit is refused (an exception, or no string) and changes nothing. Strings hold no NUL, and an empty string is not read back. Server configurations, cluster configurations, log entries, snapshots and snapshot chunks deserialize to what was serialized.",
 ["inputs"],"every sequence of puts/gets/copies/positions and every buffer size around the internal size classes","tests use a few sizes",
 ["src/buffer.cxx","src/cluster_config.cxx","src/srv_config.cxx","src/snapshot.cxx","src/snapshot_sync_req.cxx","include/log_entry.hxx"],[("size/position header","cursor","src/buffer.cxx")],[("put/get/copy/pos","src/buffer.cxx")],
 ["public buffer interface"])
prop("C28","A healthy server never shuts itself down",
 "No sequence of delayed, duplicated, reordered or lost messages, late replies, timeouts, elections, compactions, snapshot transfers, crashes and restarts of others makes a server request process termination or fail with an exception, except a server that has been removed from the cluster.",
 SCHED,"every schedule of well-formed messages from servers of the cluster",WHY,
 [S,Q,R],[("system_exit call sites","fatal branches",S)],[("term_for_log/create_append_entries_req/create_sync_snapshot_req/snapshot_and_compact",S),("handle_append_entries",Q)],
 ["state_mgr::system_exit","exceptions leaving process_req, handlers and timers"])
prop("C29","Calls that reach one server at once behave as if handled one at a time",
 "When requests of other servers and clients, answers, expiring timers and finished snapshots reach one server from several threads at the same time, all of them return, and the answers given, the terms and votes saved, the log, the entries applied, the configurations saved, the roles taken and the requests sent are those of handling the same calls one after the other in some order.",
 ["schedules"],"every interleaving of two or more calls into one server","tests drive a server from one network thread at a time and never control the interleaving",
 [S,Q,R],[("lock_/peers_lock_/commit_lock_","guards of the server state",S)],[("process_req",Q),("handle_peer_resp/handle_ext_resp",R),("handle_election_timeout/handle_hb_timeout/commit_in_bg",S)],
 ["answers, state_mgr, log_store, state_machine and rpc_client calls"])
prop("C30","Events tell when a server leads, follows and has caught up",
 "A server raises become_leader exactly when it becomes the leader, not again before it has raised become_follower, and raises become_follower no later than it learns of a term in which it isn't the leader; only between the two it replicates log entries and accepts commands. It raises logs_catch_up whenever it has applied the last entry it knows to be committed and goes idle, and never while such an entry is left to be applied.",
 SCHED,"every schedule of elections, replication, crashes and restarts",WHY,
 [S,Q,"include/events.hxx"],[("role_","leader, candidate or follower",S),("quick_commit_idx_/sm_commit_index_","known and applied commit index",S)],
 [("become_leader/become_follower",S),("commit_in_bg",S)],["raft_event_listener::on_event"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for p in P:
            assert len(p["title"])<=80,(p["id"],len(p["title"]))
            f.write(json.dumps(p)+"\n")
