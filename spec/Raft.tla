-------------------------------- MODULE Raft --------------------------------
(* The protocol the servers run, as a state machine whose steps are the steps that RaftTrace accepts from the real code:
   elections, replication, commitment, compaction and snapshot installation, membership changes, crashes.
   Messages are never taken out of the network, so every message may be lost, delayed, reordered or duplicated.
   Replies are read straight from the network (who granted, who acknowledged up to where).

   Drop names rules that are left out.  With Drop = {} the invariants hold; every rule is there for a reason, which is
   checked too: leaving any single one out breaks an invariant (model.py lists rule and bound). *)
EXTENDS RaftBase, TLC

CONSTANTS Server,      \* all servers
          Mem0,        \* the members of the first configuration
          MaxTerm, MaxLog, MaxMsg, MaxRestart,
          Batch,       \* entries per append
          Snap,        \* compaction and snapshots
          Targets,     \* the configurations a leader may be asked for ({}: no membership changes)
          Cands,       \* the servers whose election timer may fire
          Clients,     \* commands (otherwise a leader only adds configurations)
          Cut,         \* pairs of servers that cannot reach each other
          Lag,         \* a committed configuration may be taken into use later
          Drop,        \* rules left out
          Start,       \* where to begin, see Init
          Trace        \* the schedule is recorded (simulation)

VARIABLES term, vote, role, log, commit,
          cidx,        \* index of the configuration in use (0: Mem0)
          base,        \* the log is compacted up to here
          msgs,
          clog,        \* ghost: everything that was ever committed
          leaders,     \* ghost: <<term, server>> of everyone who won an election
          nres,        \* restarts so far
          act          \* the step, as a command of the replay driver

vars == <<term, vote, role, log, commit, cidx, base, msgs, clog, leaders, nres, act>>
View == <<term, vote, role, log, commit, cidx, base, msgs, clog, leaders, nres>>

Conf(i) == IF cidx[i] = 0 THEN Mem0 ELSE log[i][cidx[i]].s
Joiner(i) == i \notin Mem0 /\ cidx[i] = 0     \* has not used a configuration yet
E(t, s) == [t |-> t, k |-> ConfK, s |-> s]
A(t) == [t |-> t, k |-> AppK, s |-> {}]

(* rule r demands c *)
Rule(r, c) == (r \in Drop \/ c) = TRUE

Send(m) == msgs' = msgs \cup {m} /\ Cardinality(msgs') <= MaxMsg
Do(s) == act' = IF Trace THEN s ELSE ""
S(x) == ToString(x)

Quorum(X, Q, rule) == IF rule \in Drop THEN 2 * (Cardinality(X \cap Q) + 1) > Cardinality(Q) ELSE IsQuorum(X, Q)

(* "empty": a new cluster.  The others are reachable states that lie too deep for an exhaustive search from there:
   "split": one server led term 1 and another one term 2, and neither replicated anything.
   "part": as before, but the entry of term 1 was stored by all and committed, the entry of term 2 was not replicated
   "five": of five servers two hold two entries of term 2, one an entry of term 1, the others nothing
   "ready": a leader of term 1 whose first entry is stored, committed and known to be committed everywhere *)
X(n) == CHOOSE f \in [1..Cardinality(Mem0) -> Mem0] : \A a, b \in DOMAIN f : a # b => f[a] # f[b]
P(n) == X(0)[n]
Split == [i \in Server |-> CASE i = P(1) -> <<E(1, Mem0)>> [] i = P(2) -> <<E(2, Mem0)>> [] OTHER -> <<>>]
Part == [i \in Server |-> IF i = P(2) THEN <<E(1, Mem0), A(2)>> ELSE <<E(1, Mem0)>>]
Five == [i \in Server |-> CASE i = P(1) -> <<E(1, Mem0)>> [] i \in {P(2), P(3)} -> <<E(2, Mem0), A(2)>> [] OTHER -> <<>>]
Ready == [i \in Server |-> <<E(1, Mem0)>>]
Init == /\ role = [i \in Server |-> IF Start = "ready" /\ i = P(1) THEN "L" ELSE "F"]
        /\ base = [i \in Server |-> IF Start = "ready" THEN 1 ELSE 0]
        /\ msgs = {} /\ nres = 0 /\ act = ""
        /\ CASE Start = "empty" -> /\ term = [i \in Server |-> 0] /\ vote = [i \in Server |-> Nil]
                                   /\ log = [i \in Server |-> <<>>] /\ leaders = {}
                                   /\ commit = [i \in Server |-> 0] /\ cidx = [i \in Server |-> 0] /\ clog = <<>>
             [] Start \in {"split", "five"} ->
                                   /\ term = [i \in Server |-> 2] /\ vote = [i \in Server |-> P(2)]
                                   /\ log = (IF Start = "split" THEN Split ELSE Five) /\ leaders = {<<1, P(1)>>, <<2, P(2)>>}
                                   /\ commit = [i \in Server |-> 0] /\ cidx = [i \in Server |-> 0] /\ clog = <<>>
             [] Start = "part"  -> /\ term = [i \in Server |-> 2] /\ vote = [i \in Server |-> P(2)]
                                   /\ log = Part /\ leaders = {<<1, P(1)>>, <<2, P(2)>>}
                                   /\ commit = [i \in Server |-> IF i = P(2) THEN 1 ELSE 0]
                                   /\ cidx = [i \in Server |-> IF i = P(2) THEN 1 ELSE 0]
                                   /\ clog = <<E(1, Mem0)>>
             [] Start = "ready" -> /\ term = [i \in Server |-> 1] /\ vote = [i \in Server |-> IF i \in Mem0 THEN P(1) ELSE Nil]
                                   /\ log = Ready /\ leaders = {<<1, P(1)>>}
                                   /\ commit = [i \in Server |-> 1] /\ clog = <<E(1, Mem0)>>
                                   /\ cidx = [i \in Server |-> IF i \in Mem0 THEN 1 ELSE 0]

(* ---------------------------------------------------------------- elections *)
Campaign(i) ==
  /\ i \in Cands /\ term[i] < MaxTerm /\ role[i] # "L" /\ ~Joiner(i) /\ i \in Conf(i)
  /\ term' = [term EXCEPT ![i] = @ + 1]
  /\ vote' = [vote EXCEPT ![i] = IF "self-vote" \in Drop THEN Nil ELSE i]
  /\ role' = [role EXCEPT ![i] = "C"]
  /\ Send([ty |-> "vr", src |-> i, term |-> term[i] + 1, lli |-> Len(log[i]), llt |-> LastT(log[i])])
  /\ Do("timeout " \o S(i))
  /\ UNCHANGED <<log, commit, cidx, base, clog, leaders, nres>>

(* the receiver's term after a request with term t *)
Up(i, t) == IF t > term[i] THEN t ELSE term[i]
VoteAt(i, t) == IF t > term[i] THEN Nil ELSE vote[i]

Vote(i, m) ==
  /\ m.ty = "vr" /\ m.src # i
  /\ Rule("stale-vote", m.term > term[i] \/ (m.term = term[i] /\ role[i] # "L"))
  /\ Rule("vote-uptodate", UpToDate(m.llt, m.lli, log[i]))
  /\ Rule("vote-once", VoteAt(i, m.term) \in {Nil, m.src})
  /\ term' = [term EXCEPT ![i] = Up(i, m.term)]
  /\ vote' = [vote EXCEPT ![i] = m.src]
  /\ role' = [role EXCEPT ![i] = "F"]
  /\ Send([ty |-> "vrr", src |-> i, dst |-> m.src, term |-> m.term])
  /\ Do("mvr " \o S(m.src) \o " " \o S(i) \o " " \o S(m.term))
  /\ UNCHANGED <<log, commit, cidx, base, clog, leaders, nres>>

Granted(i) == {i} \cup {m.src : m \in {x \in msgs : x.ty = "vrr" /\ x.dst = i /\ (x.term = term[i] \/ "stale-reply" \in Drop)}}

Lead(i) ==
  /\ role[i] = "C"
  /\ Quorum(Granted(i), Conf(i), "elect-quorum")
  /\ role' = [role EXCEPT ![i] = "L"]
  /\ leaders' = leaders \cup {<<term[i], i>>}
  \* the first configuration enters the log with the first leader (and again until it is committed)
  /\ IF cidx[i] = 0 THEN Len(log[i]) < MaxLog /\ log' = [log EXCEPT ![i] = Append(@, E(term[i], Mem0))] ELSE log' = log
  /\ Do("mlead " \o S(i) \o " " \o S(term[i]))
  /\ UNCHANGED <<term, vote, commit, cidx, base, msgs, clog, nres>>

Client(i) ==
  /\ Clients /\ role[i] = "L" /\ Len(log[i]) < MaxLog
  /\ log' = [log EXCEPT ![i] = Append(@, A(term[i]))]
  /\ Do("client " \o S(i) \o " 1 0")
  /\ UNCHANGED <<term, vote, role, commit, cidx, base, msgs, clog, leaders, nres>>

(* ---------------------------------------------------------------- replication *)
SendAppend(i) ==
  /\ role[i] = "L"
  /\ \E k \in base[i]..Len(log[i]), n \in 0..Batch :
       /\ n = Min(Batch, Len(log[i]) - k)     \* as much as fits
       /\ Send([ty |-> "ae", src |-> i, term |-> term[i], lli |-> k, llt |-> TermAt(log[i], k),
                es |-> SubSeq(log[i], k + 1, k + n), ci |-> commit[i]])
       /\ msgs' # msgs
       /\ Do("hb " \o S(i))
  /\ UNCHANGED <<term, vote, role, log, commit, cidx, base, clog, leaders, nres>>

(* the configuration in use when k is committed *)
Use(lg, c, k) == IF Lag THEN {c, Max(c, ConfIdx(lg, k))} ELSE {Max(c, ConfIdx(lg, k))}

Merged(lg, m) ==
  CASE "ae-merge-cut" \in Drop -> SubSeq(lg, 1, m.lli) \o m.es
    [] "ae-merge-keep" \in Drop -> SubSeq(lg, 1, m.lli) \o m.es \o SubSeq(lg, m.lli + Len(m.es) + 1, Len(lg))
    [] OTHER -> Merge(lg, m.lli, m.es)

HandleAppend(i, m) ==
  /\ m.ty = "ae" /\ m.src # i
  /\ Rule("stale-append", m.term >= term[i])
  /\ ~(role[i] = "L" /\ m.term = term[i])
  /\ m.lli <= Len(log[i])
  /\ Rule("ae-prev", PrevMatch(log[i], m.lli, m.llt))
  /\ m.lli + Len(m.es) <= MaxLog
  /\ LET lg == Merged(log[i], m)
         cb == IF "commit-bound" \in Drop THEN Min(m.ci, Len(lg)) ELSE FollowerBound(m.ci, m.lli, Len(m.es))
         c == Max(commit[i], cb)
         gone == cidx[i] > 0 /\ (cidx[i] > Len(lg) \/ lg[cidx[i]] # log[i][cidx[i]])
     IN /\ log' = [log EXCEPT ![i] = lg]
        /\ commit' = [commit EXCEPT ![i] = Min(c, Len(lg))]
        /\ \E x \in Use(lg, IF gone THEN 0 ELSE cidx[i], c) : cidx' = [cidx EXCEPT ![i] = x]
  /\ term' = [term EXCEPT ![i] = Up(i, m.term)]
  /\ vote' = [vote EXCEPT ![i] = VoteAt(i, m.term)]
  /\ role' = [role EXCEPT ![i] = "F"]
  /\ Send([ty |-> "aer", src |-> i, dst |-> m.src, term |-> m.term, nx |-> m.lli + Len(m.es)])
  /\ Do("mae " \o S(m.src) \o " " \o S(i) \o " " \o S(m.term) \o " " \o S(m.lli) \o " " \o S(Len(m.es)) \o " " \o S(m.ci))
  /\ UNCHANGED <<base, clog, leaders, nres>>

Acked(i, k) == {i} \cup {m.src : m \in {x \in msgs : x.ty = "aer" /\ x.dst = i /\ x.nx >= k /\ (x.term = term[i] \/ "stale-reply" \in Drop)}}

Commit(i, k) ==
  /\ role[i] = "L" /\ k > commit[i] /\ k <= Len(log[i])
  /\ Rule("commit-term", log[i][k].t = term[i] \/ Conf(i) = {i})
  /\ Quorum(Acked(i, k), Conf(i), "commit-quorum")
  /\ commit' = [commit EXCEPT ![i] = k]
  /\ \E x \in Use(log[i], cidx[i], k) : cidx' = [cidx EXCEPT ![i] = x]
  /\ clog' = IF k > Len(clog) THEN SubSeq(log[i], 1, k) ELSE clog
  /\ Do("mcommit " \o S(i) \o " " \o S(k))
  /\ UNCHANGED <<term, vote, role, log, base, msgs, leaders, nres>>

Adopt(i) ==      \* a committed configuration is taken into use
  /\ Lag /\ ConfIdx(log[i], commit[i]) > cidx[i]
  /\ cidx' = [cidx EXCEPT ![i] = ConfIdx(log[i], commit[i])]
  /\ Do("bg " \o S(i))
  /\ UNCHANGED <<term, vote, role, log, commit, base, msgs, clog, leaders, nres>>

(* ---------------------------------------------------------------- snapshots *)
Compact(i) ==
  /\ Snap
  /\ \E k \in (base[i] + 1)..(IF "snap-applied" \in Drop THEN Len(log[i]) ELSE commit[i]) :
        base' = [base EXCEPT ![i] = k]
  /\ Do("mcompact " \o S(i))
  /\ UNCHANGED <<term, vote, role, log, commit, cidx, msgs, clog, leaders, nres>>

SendSnap(i) ==
  /\ role[i] = "L" /\ base[i] > 0
  /\ Send([ty |-> "is", src |-> i, term |-> term[i], pfx |-> SubSeq(log[i], 1, base[i])])
  /\ msgs' # msgs
  /\ Do("hb " \o S(i))
  /\ UNCHANGED <<term, vote, role, log, commit, cidx, base, clog, leaders, nres>>

HandleSnap(i, m) ==
  /\ m.ty = "is" /\ m.src # i
  /\ Rule("stale-append", m.term >= term[i])
  /\ ~(role[i] = "L" /\ m.term = term[i])
  /\ LET k == Len(m.pfx)
         same == Len(log[i]) >= k /\ log[i][k].t = m.pfx[k].t
     IN /\ Rule("snap-forward", k > commit[i])
        /\ log' = [log EXCEPT ![i] =
                     IF same /\ "is-cut" \notin Drop THEN m.pfx \o SubSeq(@, k + 1, Len(@))
                     ELSE IF "is-keep" \in Drop THEN m.pfx \o SubSeq(@, k + 1, Len(@)) ELSE m.pfx]
        /\ commit' = [commit EXCEPT ![i] = k]
        /\ base' = [base EXCEPT ![i] = k]
        /\ cidx' = [cidx EXCEPT ![i] = IF "snap-config" \in Drop THEN Min(@, k) ELSE ConfIdx(m.pfx, k)]
        /\ Send([ty |-> "aer", src |-> i, dst |-> m.src, term |-> m.term, nx |-> k])
  /\ term' = [term EXCEPT ![i] = Up(i, m.term)]
  /\ vote' = [vote EXCEPT ![i] = VoteAt(i, m.term)]
  /\ role' = [role EXCEPT ![i] = "F"]
  /\ Do("mis " \o S(m.src) \o " " \o S(i) \o " " \o S(m.term))
  /\ UNCHANGED <<clog, leaders, nres>>

(* ---------------------------------------------------------------- membership *)
Settled(i) == \A k \in 1..Len(log[i]) : log[i][k].k = ConfK => k <= commit[i] /\ k <= cidx[i]

Reconf(i, s) ==
  /\ role[i] = "L" /\ Len(log[i]) < MaxLog /\ i \in s /\ s # Conf(i)
  /\ Rule("conf-one-at-a-time", Settled(i))
  /\ Rule("conf-one-server", OneServerApart(s, Conf(i)))
  /\ log' = [log EXCEPT ![i] = Append(@, E(term[i], s))]
  /\ Do("mconf " \o S(i) \o " " \o S(s))
  /\ UNCHANGED <<term, vote, role, commit, cidx, base, msgs, clog, leaders, nres>>

(* an empty server that is about to join receives what is committed *)
Sync(i, j) ==
  /\ Targets # {} /\ role[i] = "L" /\ j \notin Conf(i) /\ Joiner(j) /\ log[j] = <<>> /\ commit[i] > 0
  /\ log' = [log EXCEPT ![j] = SubSeq(log[i], 1, IF "sync-exact" \in Drop THEN Len(log[i]) ELSE commit[i])]
  /\ commit' = [commit EXCEPT ![j] = Len(log'[j])]
  /\ term' = [term EXCEPT ![j] = Up(j, term[i])]
  /\ vote' = [vote EXCEPT ![j] = VoteAt(j, term[i])]
  /\ Do("msync " \o S(i) \o " " \o S(j))
  /\ UNCHANGED <<role, cidx, base, msgs, clog, leaders, nres>>

(* ---------------------------------------------------------------- crashes *)
Restart(i) ==
  /\ nres < MaxRestart /\ nres' = nres + 1
  /\ role' = [role EXCEPT ![i] = "F"]
  /\ \E k \in {base[i], commit[i]} : commit' = [commit EXCEPT ![i] = Max(k, cidx[i])]
  /\ vote' = [vote EXCEPT ![i] = IF "vote-durable" \in Drop THEN Nil ELSE @]
  /\ term' = [term EXCEPT ![i] = IF "term-durable" \in Drop THEN LastT(log[i]) ELSE @]
  /\ IF "log-durable" \in Drop /\ Len(log[i]) > Max(base[i], cidx[i])
     THEN log' = [log EXCEPT ![i] = SubSeq(@, 1, Len(@) - 1)] ELSE log' = log
  /\ Do("crash " \o S(i) \o ";restart " \o S(i))
  /\ UNCHANGED <<cidx, base, msgs, clog, leaders>>

(* a server learns of a later term, from a request it refuses or from a reply *)
Learn(i, m) ==
  /\ m.term > term[i]
  /\ role' = [role EXCEPT ![i] = "F"]
  /\ term' = [term EXCEPT ![i] = m.term]
  /\ vote' = [vote EXCEPT ![i] = Nil]
  /\ Do(IF m.ty = "vr" THEN "mvr " \o S(m.src) \o " " \o S(i) \o " " \o S(m.term) ELSE "")
  /\ UNCHANGED <<log, commit, cidx, base, msgs, clog, leaders, nres>>

Next == \E i \in Server :
  \/ Campaign(i) \/ Lead(i) \/ Client(i) \/ SendAppend(i) \/ Compact(i) \/ SendSnap(i) \/ Restart(i) \/ Adopt(i)
  \/ \E m \in msgs : {i, m.src} \notin Cut /\ (Vote(i, m) \/ Learn(i, m) \/ HandleAppend(i, m) \/ HandleSnap(i, m))
  \/ \E k \in 1..Len(log[i]) : Commit(i, k)
  \/ \E s \in Targets : Reconf(i, s)
  \/ \E j \in Server : Sync(i, j)

Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- what users rely on *)
ElectionSafety == \A a, b \in leaders : a[1] = b[1] => a[2] = b[2]
LogMatching == \A i, j \in Server : i # j => LogMatch(log[i], log[j])
(* what a server regards as committed is what was committed *)
Agreement == \A i \in Server : IsPfx(SubSeq(log[i], 1, Min(commit[i], Len(log[i]))), clog)
(* a server that could win an election has everything that is committed *)
Completeness == \A i \in Server : (role[i] = "L" /\ \A a \in leaders : a[1] <= term[i]) => IsPfx(clog, log[i])
Elected == [][\A i \in Server : (role[i] # "L" /\ role'[i] = "L" /\ \A a \in leaders : a[1] < term[i]) => IsPfx(clog, log[i])]_vars
(* nothing committed is ever replaced *)
Stable == [][IsPfx(clog, clog')]_vars
Forward == [][\A i \in Server : commit'[i] >= commit[i] \/ nres' > nres]_vars
Terms == [][\A i \in Server : term'[i] >= term[i]]_vars
Inv == ElectionSafety /\ LogMatching /\ Agreement /\ Completeness
Sym == Permutations(Mem0)
=============================================================================
