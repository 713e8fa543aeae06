----------------------------- MODULE RaftTrace ------------------------------
(* Validates executions recorded from the real servers: every recorded step   *)
(* must satisfy the named rules ("clauses") in Enforced, and the ghost state  *)
(* (commit log, leaders of terms, votes received, ...) is carried along.      *)
EXTENDS RaftBase, Json, TLC, IOUtils

CONSTANTS Enforced      \* names of the clauses this check insists on

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,    \* position in the trace
          nd,   \* per server: observed and ghost state
          g,    \* global ghost state
          skip  \* the rest of the current run is not judged

vars == <<l, nd, g, skip>>

Has(e, f) == f \in DOMAIN e
Get(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
Ops(e) == Get(e, "sm", <<>>)
Out(e) == Get(e, "out", <<>>)
Crashed(e) == Has(e, "crash")
Exited(e) == Has(e, "exit")

NewNode == [term |-> 0, vote |-> Nil, log |-> <<>>, start |-> 1, up |-> FALSE, lead |-> FALSE,
            applied |-> 0, cb |-> 0, conf |-> [s |-> {}, i |-> 0], votes |-> {}, pvotes |-> {}, quiet |-> FALSE,
            pre |-> {}, resp |-> <<>>, snapi |-> 0, snapp |-> 0, ldr |-> Nil, join |-> FALSE, leave |-> 0, owe |-> FALSE, member |-> FALSE,
            removed |-> FALSE, nopre |-> 0, cand |-> FALSE, fw |-> {}, alone |-> FALSE, jreq |-> {}, due |-> 0]

NewGlobal == [all |-> {}, mem |-> {}, prevote |-> FALSE, def |-> FALSE, snap |-> 0, reserved |-> 0, maxapp |-> 0, upper |-> 0,
              leaderOf |-> <<>>, clog |-> <<>>, adds |-> {}, rms |-> {}, fair |-> FALSE, calm |-> FALSE, fairterm |-> 0, final |-> 0,
              block |-> 0, gap |-> 0]

LeaderOf(gg, t) == IF t \in DOMAIN gg.leaderOf THEN gg.leaderOf[t] ELSE Nil

Logs(n) == [j \in DOMAIN n |-> n[j].log]
ConfSeq(gg, lg, k) == LET c == ConfIdx(lg, k) IN IF c = 0 THEN gg.mem ELSE Range(lg[c].s)
AppVals(lg, k) == LET f[x \in 0..Min(k, Len(lg))] ==
                        IF x = 0 THEN <<>> ELSE IF lg[x].k = AppK THEN Append(f[x - 1], <<x, lg[x].v>>) ELSE f[x - 1]
                  IN f[Min(k, Len(lg))]

(* ---- quorum of the configuration a server uses.  In a two-server cluster whose other member is being removed after it
   became unreachable the leader goes on alone (handle_ext_resp_err documents why that is safe). *)
Qm(x, i) == IF x.alone THEN {i} ELSE x.conf.s

Fresh(x, i, now, upper) ==
  LET q == x.conf.s
      ok == {j \in q \ {i} : j \in DOMAIN x.resp /\ now - x.resp[j] <= 2 * upper}
  IN  IsQuorum(ok \cup {i}, q) \/ Cardinality(Qm(x, i)) = 1

(* ---------------------------------------------------------------- effect of the recorded operations of one step *)
(* st: [x: server record, gg: global record, bad: clauses violated, lim: index of the step's messages] *)
Bad(st, c, cond) == IF cond THEN st ELSE [st EXCEPT !.bad = @ \cup {c}]

(* server i regards index k as committed *)
NoteCommit(st, i, k, logs) ==
  LET x == st.x
      okLead == CanCommit([logs EXCEPT ![i] = x.log], x.log, x.term, Qm(x, i), k)
      st1 == IF k <= x.cb THEN st
             ELSE IF x.lead THEN Bad(st, "commit-quorum", okLead)
             ELSE Bad(st, "commit-bound", FALSE)
      newc == x.lead /\ k > Len(st.gg.clog) /\ k <= Len(x.log)
      st2 == Bad(st1, "commit-agree", k <= Len(x.log) /\ IsPfx(Prefix(st.gg.clog, k), x.log))
  IN  [st2 EXCEPT !.x.cb = Max(@, k), !.gg.clog = IF newc THEN SubSeq(x.log, 1, k) ELSE @]

(* configurations a server already knows need no further action when the log is applied again *)
SkipTo(x, k) == k <= Len(x.log) /\ \A j \in (x.applied + 1)..k : x.log[j].k = ConfK /\ j <= x.conf.i
AppliedOf(x) == LET S == {k \in x.applied..Max(x.applied, Len(x.log)) : k = x.applied \/ SkipTo(x, k)}
                IN  CHOOSE k \in S : \A j \in S : j <= k

(* server i hands index k to its state machine (or, for a configuration, adopts it) *)
NoteApply(st, i, k, logs) ==
  LET st1 == Bad(st, "apply-next", k > st.x.applied /\ SkipTo(st.x, k - 1))
      st2 == NoteCommit(st1, i, k, logs)
      st3 == Bad(st2, "apply-committed", k <= Len(st2.gg.clog) /\ k <= Len(st2.x.log) /\ st2.gg.clog[k] = st2.x.log[k])
  IN  [st3 EXCEPT !.x.applied = k]

OpSt(st, o) ==
  LET x == st.x
      s1 == Bad(st, "term-monotone", o.t >= x.term \/ x.join)
      s2 == Bad(s1, "one-vote", (o.t = x.term /\ x.vote # Nil /\ ~x.join) => o.v = x.vote)
  IN  [s2 EXCEPT !.x.term = o.t, !.x.vote = o.v,
                 !.x.votes = IF o.t # x.term THEN {} ELSE @]

OpCommit(st, i, o, logs) ==
  LET k == o.i
      x == st.x
      s0 == Bad(st, "apply-value", k <= Len(x.log) /\ x.log[k].k = AppK /\ x.log[k].v = o.v)
      s1 == NoteApply(s0, i, k, logs)
      s2 == Bad(s1, "cookie", o.ck = 0 \/ o.ck = o.v)
      s3 == Bad(s2, "pre-missing", x.join \/ ~x.up \/ <<k, o.v>> \in x.pre \/ k <= x.nopre)
      (* a snapshot must have been requested for the entry applied before, if that was far enough from the last one *)
      s4 == Bad(s3, "snap-due", ~(x.due > 0 /\ x.due - x.start >= st.gg.snap /\ x.due - x.snapi >= st.gg.snap))
  IN  [s4 EXCEPT !.x.pre = {p \in @ : p[1] # k},
                 !.x.due = IF st.gg.snap > 0 /\ x.snapp = 0 /\ ~x.join THEN k ELSE 0]

OpCfg(st, i, o, e, logs) ==
  LET x == st.x
      k == o.c.i
      isEntry == k >= 1 /\ k <= Len(x.log) /\ x.log[k].k = ConfK /\ x.log[k].s = o.c.s /\ x.log[k].i = k /\ x.log[k].p = o.c.p
      leaving == nd[i].leave = 1 /\ e.ev = "Timer"
      snapped == st.snapcfg # <<>> /\ st.snapcfg[1].s = o.c.s
      s1 == IF leaving \/ snapped THEN st ELSE Bad(st, "cfg-entry", isEntry)
      s1b == IF leaving \/ snapped THEN s1 ELSE Bad(s1, "cfg-forward", k >= x.conf.i \/ x.join)
      again == x.removed /\ k = x.conf.i \* a removed server saves the configuration once more
      s2 == IF leaving \/ snapped \/ again \/ ~isEntry THEN s1b ELSE NoteApply(s1b, i, k, logs)
      nc == [s |-> Range(o.c.s), i |-> k]
      in2 == i \in Range(o.c.s)
  IN  IF leaving THEN [s2 EXCEPT !.x.removed = TRUE]
      ELSE [s2 EXCEPT !.x.due = 0, !.x.conf = IF k > x.conf.i \/ snapped THEN nc ELSE @,
                 !.x.alone = IF k > x.conf.i \/ snapped THEN FALSE ELSE @,
                 !.x.resp = IF k > x.conf.i THEN [j \in (DOMAIN @) \cap Range(o.c.s) |-> @[j]] ELSE @,
                 !.x.join = IF in2 THEN FALSE ELSE @,
                 !.x.member = (in2 \/ @),
                 !.x.removed = IF ~in2 /\ ~x.join /\ ~snapped /\ k > x.conf.i THEN TRUE ELSE @]

OpPre(st, o) ==
  LET s1 == Bad(st, "pre-once", ~\E p \in st.x.pre : p[1] = o.i)
  IN  [s1 EXCEPT !.x.pre = @ \cup {<<o.i, o.v>>}, !.pres = Append(@, <<o.i, o.v>>)]

OpRb(st, o) ==
  LET s1 == Bad(st, "rollback-match", <<o.i, o.v>> \in st.x.pre \/ o.i <= st.x.nopre)
      s2 == Bad(s1, "rollback-applied", o.i > st.x.applied)
  IN  [s2 EXCEPT !.x.pre = {p \in @ : p[1] # o.i}, !.rbs = Append(@, <<o.i, o.v>>)]

OpLead(st, i) ==
  LET x == st.x
      s1 == Bad(st, "elect-quorum", IsQuorum(x.votes \cup {i}, Qm(x, i)) /\ x.vote = i)
      s2 == Bad(s1, "one-leader", LeaderOf(st.gg, x.term) \in {Nil, i})
      s3 == Bad(s2, "leader-complete", IsPfx(st.gg.clog, st.pre0))
      s4a == Bad(s3, "joiner-passive", ~x.join)
      s4 == Bad(s4a, "role-events", ~x.lead)
      t == x.term
  IN  [s4 EXCEPT !.x.lead = TRUE, !.x.ldr = i, !.x.quiet = FALSE,
                 !.gg.leaderOf = (t :> i) @@ @]

OpCreate(st, i, o) ==
  LET x == st.x
      k == o.i
      s1 == Bad(st, "snap-applied", k >= x.applied /\ SkipTo(x, k))
      s2 == Bad(s1, "snap-term", k >= 1 /\ k <= Len(x.log) /\ x.log[k].t = o.t)
      s3 == Bad(s2, "snap-conf", Range(o.c.s) = ConfSeq(st.gg, x.log, k))
      s4 == Bad(s3, "snap-one", x.snapp = 0)
      s5 == Bad(s4, "snap-distance", st.gg.snap > 0 /\ k - x.snapi >= st.gg.snap)
  IN  [s5 EXCEPT !.x.snapp = k, !.x.due = 0]

OpApply(st, i, o) ==
  LET x == st.x
      k == o.i
      c == st.gg.clog
      s1 == Bad(st, "snap-complete", o.ok)
      s2 == Bad(s1, "snap-content", k <= Len(c) /\ o.d = AppVals(c, k) /\ c[k].t = o.t)
      s3 == Bad(s2, "snap-config", k <= Len(c) /\ Range(o.c.s) = ConfSeq(st.gg, c, k))
      s4 == Bad(s3, "snap-forward", k > x.applied)
  IN  [s4 EXCEPT !.x.applied = Max(@, k), !.x.cb = Max(@, k), !.x.snapi = Max(@, k), !.x.nopre = Max(@, k),
                 !.x.conf = [s |-> Range(o.c.s), i |-> o.c.i],
                 !.x.pre = {p \in @ : p[1] > k},
                 !.x.member = (i \in Range(o.c.s) \/ @),
                 !.x.due = 0, !.snapcfg = <<o.c>>]

OpCompact(st, o, e) ==
  LET x == st.x
      own == x.snapi > 0 /\ o.i + st.gg.reserved <= x.snapi
      inst == e.ev = "Req" /\ e.m.ty = "is" /\ e.m.snap.done /\ o.i <= e.m.snap.i
      s1 == Bad(st, "compact-covered", own \/ inst)
  IN  s1

RECURSIVE Fold(_, _, _, _, _, _)
Fold(st, ops, k, i, e, logs) ==
  IF k > Len(ops) THEN st
  ELSE LET o == ops[k]
           s2 == CASE o.o = "st"      -> OpSt(st, o)
                   [] o.o = "commit"  -> OpCommit(st, i, o, logs)
                   [] o.o = "cfg"     -> OpCfg(st, i, o, e, logs)
                   [] o.o = "pre"     -> OpPre(st, o)
                   [] o.o = "rb"      -> OpRb(st, o)
                   [] o.o = "lead"    -> OpLead(st, i)
                   [] o.o = "foll"    -> [st EXCEPT !.x.lead = FALSE]
                   [] o.o = "create"  -> OpCreate(st, i, o)
                   [] o.o = "apply"   -> OpApply(st, i, o)
                   [] o.o = "compact" -> OpCompact(st, o, e)
                   [] OTHER           -> st
       IN Fold(s2, ops, k + 1, i, e, logs)

(* ---- messages sent during the step *)
OutOne(st, i, m, e, logs) ==
  LET x == st.x
      lg == x.log
      peerm == m.ty \in {"vr", "ae", "is", "pv"}
      s1 == Bad(st, "send-durable", m.ty \in {"cr", "as", "rs"} \/ (m.term <= m.dt /\ (m.ty = "vr" => m.term = m.dt /\ m.dv = i)))
      s2 == Bad(s1, "send-self", m.ty \in {"cr", "as", "rs"} \/ m.from = i)
      s3 == IF m.ty \in {"ae", "is"}
            THEN LET t == m.term
                     a == Bad(s2, "lead-sends", x.lead \/ st.wasLead)
                     b == Bad(a, "one-leader", LeaderOf(a.gg, t) \in {Nil, i})
                 IN  [b EXCEPT !.gg.leaderOf = (t :> i) @@ @]
            ELSE s2
      s4 == IF m.ty = "ae"
            THEN LET a == Bad(s3, "ae-content", /\ m.lli <= Len(lg)
                                                /\ m.llt = TermAt(lg, m.lli)
                                                /\ m.lli + Len(m.es) <= Len(lg)
                                                /\ m.es = SubSeq(lg, m.lli + 1, m.lli + Len(m.es)))
                     b == Bad(a, "ae-size", Len(m.es) <= st.gg.maxapp)
                 IN  NoteCommit(b, i, m.ci, logs)
            ELSE s3
      s5 == IF m.ty \in {"vr", "pv"}
            THEN LET a == Bad(s4, "vote-req-log", m.lli = Len(lg) /\ m.llt = LastT(lg))
                     b == Bad(a, "joiner-passive", ~x.join)
                 IN  b
            ELSE s4
      s6 == IF m.ty = "vr" /\ st.gg.prevote /\ m.term > st.term0
            THEN Bad(s5, "prevote-first", st.wasCand \/ IsQuorum(x.pvotes \cup {i}, x.conf.s))
            ELSE s5
      s7 == IF m.ty = "is"
            THEN LET c == st.gg.clog
                     sn == m.snap
                     a == Bad(s6, "is-meta", /\ sn.i <= Len(c) /\ sn.i >= 1
                                             /\ c[sn.i].t = sn.t
                                             /\ Range(sn.c.s) = ConfSeq(st.gg, c, sn.i)
                                             /\ sn.off + sn.len <= sn.sz
                                             /\ sn.done = (sn.off + sn.len = sn.sz)
                                             /\ (sn.len > 0))
                 IN a
            ELSE s6
  IN  s7

RECURSIVE FoldOut(_, _, _, _, _, _)
FoldOut(st, ms, k, i, e, logs) ==
  IF k > Len(ms) THEN st ELSE FoldOut(OutOne(st, i, ms[k], e, logs), ms, k + 1, i, e, logs)

(* ---- log after the step *)
NewLog(e, x, clog) ==
  IF ~Has(e, "f") THEN x.log
  ELSE LET pfx == IF e.f - 1 <= Len(x.log) THEN SubSeq(x.log, 1, e.f - 1)
                  ELSE IF e.f - 1 <= Len(clog) THEN SubSeq(clog, 1, e.f - 1) ELSE x.log
       IN pfx \o e.tail

(* after a snapshot the part before the start index is the snapshot's *)
FixPrefix(lg, e, x, clog) ==
  LET ap == {k \in 1..Len(Ops(e)) : Ops(e)[k].o = "apply"}
  IN  IF ap = {} THEN lg
      ELSE LET k == Ops(e)[CHOOSE z \in ap : TRUE].i
           IN IF k <= Len(clog) /\ Get(e, "start", x.start) = k + 1
              THEN SubSeq(clog, 1, k) \o SubSeq(lg, k + 1, Len(lg)) ELSE lg

DropsIdx(a, b) == {k \in 1..Len(a) : k > Len(b) \/ a[k] # b[k]}
AddsIdx(a, b) == {k \in 1..Len(b) : k > Len(a) \/ a[k] # b[k]}
(* indexes whose command leaves / enters the log *)
FirstChange(a, b) == LET D == {k \in 1..Max(Len(a), Len(b)) : k > Len(a) \/ k > Len(b) \/ a[k] # b[k]}
                     IN IF D = {} THEN 0 ELSE CHOOSE k \in D : \A j \in D : k <= j
Removed(a, b) == LET f == FirstChange(a, b) IN IF f = 0 THEN {} ELSE f..Len(a)
Added(a, b) == LET f == FirstChange(a, b) IN IF f = 0 THEN {} ELSE f..Len(b)
AppSet(lg, S) == {<<k, lg[k].v>> : k \in {j \in S : lg[j].k = AppK}}
Pos(q, v) == CHOOSE k \in 1..Len(q) : q[k] = v

(* ---- appended by this server itself (as leader) *)
OwnAppend(st, i, e, a, b) ==   \* a: log before, b: log after
  LET x == st.x
      s1 == Bad(st, "leader-append-only", IsPfx(a, b))
      s2 == Bad(s1, "leader-append-term", \A k \in (Len(a) + 1)..Len(b) : b[k].t = x.term)
      s3 == Bad(s2, "append-as-leader", b # a => \/ (x.lead \/ st.wasLead)
                                               \* the crash came between the election and its announcement
                                               \/ (Crashed(e) /\ x.vote = i /\ IsQuorum(x.votes \cup {i}, Qm(x, i))))
      cs == {k \in (Len(a) + 1)..Len(b) : b[k].k = ConfK}
      newc == {k \in cs : Range(b[k].s) # st.conf0.s}
      s4 == Bad(s3, "conf-one-at-a-time",
                \A k \in newc : /\ \A j \in 1..(k - 1) : b[j].k = ConfK => j <= st.applied0
                                /\ Cardinality(newc) = 1)
      s5 == Bad(s4, "conf-one-server", \A k \in newc : OneServerApart(Range(b[k].s), st.conf0.s) /\ Len(b[k].s) = Cardinality(Range(b[k].s)))
      s6 == Bad(s5, "conf-pred", \A k \in cs : b[k].i = k /\ b[k].p = ConfIdx(b, k - 1))
      s7 == Bad(s6, "conf-requested",
                \A k \in newc : \/ \A z \in Range(b[k].s) \ st.conf0.s : z \in st.gg.adds /\ st.conf0.s \subseteq Range(b[k].s)
                                \/ \A z \in st.conf0.s \ Range(b[k].s) : z \in st.gg.rms /\ Range(b[k].s) \subseteq st.conf0.s)
  IN  s7

ConfDups(cs) == FALSE

(* commands told to the state machine in this step fit the change of the log *)
PrePair(st, a, b, told) ==
  LET rem == AppSet(a, Removed(a, b))
      add == AppSet(b, Added(a, b))
      s1 == Bad(st, "rollback-exact", Range(st.rbs) = rem /\ Len(st.rbs) = Cardinality(rem))
      s2 == Bad(s1, "pre-exact", Range(st.pres) = add /\ Len(st.pres) = Cardinality(add))
  IN  s2

(* ---------------------------------------------------------------- one recorded step of server i *)
Begin(e, i) ==
  LET x == nd[i]
  IN  [x |-> x, gg |-> g, bad |-> {}, pres |-> <<>>, rbs |-> <<>>, snapcfg |-> <<>>,
       term0 |-> x.term, wasLead |-> x.lead, wasCand |-> x.cand,
       conf0 |-> x.conf, applied0 |-> x.applied, pre0 |-> x.log]

StepReq(st, i, e) ==
  LET m == e.m
      x == st.x
      hasR == Has(e, "r")
      ok == hasR /\ e.r.ok
      a == nd[i].log
      b == x.log
      s0 == IF hasR THEN Bad(st, "resp-term", e.r.term <= x.term) ELSE st
  IN
  CASE m.ty = "vr" ->
        LET s1 == Bad(s0, "vote-grant", ok => m.term = x.term /\ x.vote = m.from /\ e.r.term = m.term)
            s2 == Bad(s1, "vote-uptodate", ok => UpToDate(m.llt, m.lli, b))
            s3 == Bad(s2, "log-unchanged", b = a)
        IN  s3
    [] m.ty = "ae" ->
        LET s1 == Bad(s0, "ae-accept", ok => /\ m.term = x.term /\ e.r.term = x.term
                                             /\ PrevMatch(a, m.lli, m.llt)
                                             /\ e.r.nx = m.lli + Len(m.es) + 1
                                             /\ Len(b) >= m.lli + Len(m.es)
                                             /\ SubSeq(b, m.lli + 1, m.lli + Len(m.es)) = m.es)
            s2 == Bad(s1, "ae-merge", CASE ok -> b = Merge(a, m.lli, m.es)
                                        [] hasR /\ ~ok -> b = a
                                        [] OTHER -> b = a \/ (m.term = x.term /\ PrevMatch(a, m.lli, m.llt) /\ PartialMerge(a, b, m.lli, m.es)))
            s3 == IF Crashed(e) THEN s2 ELSE PrePair(s2, a, b, TRUE)
            s4 == Bad(s3, "committed-kept", IsPfx(Prefix(st.gg.clog, Len(Prefix(a, Max(x.applied, x.cb)))), b) \/ ~IsPfx(Prefix(st.gg.clog, x.cb), a))
            cbn == IF ok THEN Max(x.cb, FollowerBound(m.ci, m.lli, Len(m.es))) ELSE x.cb
            heard == m.term = x.term
        IN  [s4 EXCEPT !.x.cb = cbn, !.x.ldr = IF ok THEN m.from ELSE @,
                       !.x.quiet = IF heard THEN FALSE ELSE @]
    [] m.ty = "is" ->
        LET s1 == Bad(s0, "is-accept", ok => /\ (m.term = x.term \/ nd[i].join)
                                             /\ \/ e.r.nx = m.snap.off + m.snap.len
                                                \/ e.r.nx = m.snap.sz /\ m.snap.i <= nd[i].applied)
            inst == \E k \in 1..Len(Ops(e)) : Ops(e)[k].o = "apply"
            s2 == Bad(s1, "is-log", IF inst THEN \/ Crashed(e)
                                                 \/ /\ Len(b) >= m.snap.i
                                                    /\ (Len(b) > m.snap.i => IsPfx(SubSeq(a, 1, m.snap.i), SubSeq(st.gg.clog, 1, m.snap.i)) /\ b = a)
                                    ELSE b = a \/ Crashed(e))
            s3 == Bad(s2, "is-done", (ok /\ m.snap.done) => x.applied >= m.snap.i)
            s4 == Bad(s3, "is-start", (inst /\ ~Crashed(e)) => e.start = m.snap.i + 1)
            rem == AppSet(a, {k \in Removed(a, b) : k > m.snap.i})
            s5 == IF Crashed(e) \/ ~inst THEN s4
                  ELSE Bad(s4, "rollback-exact", {p \in Range(st.rbs) : p[1] > m.snap.i} = rem)
        IN  [s5 EXCEPT !.x.quiet = IF m.term = x.term THEN FALSE ELSE @]
    [] m.ty = "pv" ->
        LET s1 == Bad(s0, "prevote-passive", x.term = nd[i].term /\ x.vote = nd[i].vote)
            s2 == Bad(s1, "prevote-grant", ok => m.term >= x.term /\ UpToDate(m.llt, m.lli, b))
            s3 == Bad(s2, "prevote-defensive", (ok /\ st.gg.def) => nd[i].quiet \/ nd[i].join)
            s4 == Bad(s3, "log-unchanged", b = a)
        IN  s4
    [] m.ty = "cr" ->
        LET vs == [k \in 1..Len(m.es) |-> [m.es[k] EXCEPT !.t = x.term]]
            s1 == Bad(s0, "cli-accept", ok => (nd[i].lead /\ b = a \o vs))
            s2 == Bad(s1, "cli-refuse", (hasR /\ ~ok) => b = a)
            s3 == Bad(s2, "cli-fresh", hasR => (ok <=> (nd[i].lead /\ Fresh(nd[i], i, e.ms, st.gg.upper))))
            s4 == Bad(s3, "cli-hint", (hasR /\ ~ok /\ ~nd[i].lead) => e.r.to = nd[i].ldr)
            s5 == IF Crashed(e) THEN s4 ELSE PrePair(s4, a, b, TRUE)
        IN  OwnAppend(s5, i, e, a, b)
    [] m.ty = "jc" ->
        LET s1 == Bad(s0, "join-member", ok => ~nd[i].member)
            s2 == Bad(s1, "sync-exact", ok => e.r.nx = Len(b) + 1)
        IN  Bad(s2, "log-unchanged", b = a)
    [] m.ty = "sl" ->
        LET s1 == Bad(s0, "sync-exact", ok => /\ nd[i].join
                                              /\ b = a \/ (IsPfx(a, b) /\ IsPfx(b, st.gg.clog))
                                              /\ e.r.nx = Len(b) + 1)
            s2 == Bad(s1, "sync-refuse", (hasR /\ ~ok) => b = a)
        IN  [s2 EXCEPT !.x.cb = IF ok /\ b # a THEN Max(@, Len(b)) ELSE @, !.x.nopre = IF ok /\ b # a THEN Max(@, Len(b)) ELSE @]
    [] m.ty = "lc" -> Bad(s0, "log-unchanged", b = a)
    [] OTHER -> s0

StepClient(st, i, e) ==
  LET x == st.x
      a == nd[i].log
      b == x.log
      vs == [k \in 1..Len(e.vs) |-> [t |-> x.term, k |-> AppK, v |-> e.vs[k], i |-> 0, p |-> 0, s |-> <<>>]]
      can == nd[i].lead /\ Fresh(nd[i], i, e.ms, st.gg.upper)
      s1 == CASE e.how = 0 /\ Has(e, "r") ->
                  LET c1 == Bad(st, "cli-accept", e.r.ok => (nd[i].lead /\ b = a \o vs))
                      c2 == Bad(c1, "cli-refuse", ~e.r.ok => b = a)
                      c3 == Bad(c2, "cli-fresh", e.r.ok <=> can)
                      c4 == Bad(c3, "cli-hint", (~e.r.ok /\ ~nd[i].lead) => e.r.to = nd[i].ldr)
                      c5 == Bad(c4, "resp-term", e.r.term = x.term)
                  IN  c5
              [] e.how = 1 ->
                  LET as == Get(e, "async", <<>>)
                      fw == {k \in 1..Len(Out(e)) : Out(e)[k].ty = "cr"}
                      now == Len(as) = 1
                      c1 == Bad(st, "cli-accept", (now /\ as[1].ok) => (nd[i].lead /\ b = a \o vs /\ can))
                      c2 == Bad(c1, "cli-refuse", ~(now /\ as[1].ok) => b = a)
                      c3 == Bad(c2, "cli-forward", IF Crashed(e) \/ Exited(e) THEN TRUE
                                                   ELSE /\ now => fw = {}
                                                        /\ (now /\ can /\ nd[i].ldr = i) => as[1].ok
                                                        /\ ~now => /\ Cardinality(fw) = 1
                                                                   /\ \A k \in fw : /\ Out(e)[k].dst = nd[i].ldr
                                                                                    /\ [z \in 1..Len(Out(e)[k].es) |-> Out(e)[k].es[z].v] = e.vs)
                  IN  c3
              [] e.how = 2 /\ Has(e, "res") ->
                  LET c1 == Bad(st, "cli-accept", e.res => (nd[i].lead /\ b = a \o vs))
                      c2 == Bad(c1, "cli-refuse", ~e.res => b = a)
                      c3 == Bad(c2, "cli-fresh", e.res <=> can)
                  IN  c3
              [] OTHER -> st
      s2 == IF Crashed(e) THEN s1 ELSE PrePair(s1, a, b, TRUE)
  IN  OwnAppend(s2, i, e, a, b)

StepAdd(st, i, e) ==
  LET a == nd[i].log
      b == st.x.log
      ok == Has(e, "r") /\ e.r.ok
      s1 == Bad(st, "add-accept", ok => nd[i].lead /\ e.s \notin nd[i].conf.s)
  IN  OwnAppend(s1, i, e, a, b)

StepRm(st, i, e) ==
  LET a == nd[i].log
      b == st.x.log
      ok == Has(e, "r") /\ e.r.ok
      s1 == Bad(st, "rm-accept", ok => nd[i].lead /\ e.s # i /\ e.s \in nd[i].conf.s)
  IN  OwnAppend(s1, i, e, a, b)

(* the caller of a forwarded request learns exactly what the leader answered *)
Fwd(st, i, e) ==
  LET as == Get(e, "async", <<>>)
      mine == {p \in st.x.fw : p[1] = e.q.id}
      s1 == IF mine = {} \/ Crashed(e) THEN st
            ELSE Bad(st, "fwd-verdict", /\ Len(as) = 1
                                        /\ \A p \in mine : as[1].f = p[2]
                                        /\ as[1].err = (e.ev = "Fail")
                                        /\ as[1].ok = (e.ev = "Resp" /\ e.m.ok))
  IN  [s1 EXCEPT !.x.fw = @ \ mine]

IsRemovedExit(st, i) == st.x.removed

(* ---- a step of server i *)
DoStep(e, i) ==
  LET logs == Logs(nd)
      x0 == nd[i]
      b0 == FixPrefix(NewLog(e, x0, g.clog), e, x0, g.clog)
      st0 == Begin(e, i)
      (* the operations see the log as it is after the step; entries are only applied after they were stored *)
      pre == CASE e.ev = "Req" /\ e.m.ty = "jc" /\ Has(e, "r") /\ e.r.ok /\ x0.join -> [st0 EXCEPT !.x.ldr = e.m.from]
               [] e.ev = "Req" /\ e.m.ty = "jc" /\ Has(e, "r") /\ e.r.ok ->
                    [st0 EXCEPT !.x.join = TRUE, !.x.applied = 0, !.x.cb = 0, !.x.nopre = 0,
                                !.x.conf = [s |-> Range(e.m.es[1].s), i |-> e.m.es[1].i], !.x.resp = <<>>,
                                !.x.ldr = e.m.from]
               [] e.ev = "Req" /\ e.m.ty = "lc" /\ Has(e, "r") /\ e.r.ok -> [st0 EXCEPT !.x.leave = 2]
               [] e.ev = "Req" /\ e.m.ty \in {"vr", "ae", "is"} -> [st0 EXCEPT !.x.leave = IF @ > 0 THEN 2 ELSE 0]
               [] e.ev = "Resp" /\ e.m.ty \in {"vr", "ae", "is"} /\ e.q.ty = e.m.ty ->
                    LET j == e.m.from
                    IN [st0 EXCEPT !.x.resp = IF j \in x0.conf.s /\ e.q.id \notin x0.jreq THEN (j :> e.ms) @@ @ ELSE @,
                                   !.x.votes = IF e.m.ty = "vr" /\ e.m.ok /\ e.m.term = x0.term /\ e.q.term = x0.term /\ j \in x0.conf.s
                                               THEN @ \cup {j} ELSE @]
               [] e.ev = "Resp" /\ e.m.ty = "pv" -> [st0 EXCEPT !.x.pvotes = IF e.m.ok THEN @ \cup {e.m.from} ELSE @]
               [] e.ev = "Timer" /\ e.k = "e" -> [st0 EXCEPT !.x.quiet = TRUE, !.x.leave = IF @ > 0 THEN @ - 1 ELSE 0]
               [] e.ev = "SnapDone" -> [st0 EXCEPT !.x.snapp = 0, !.x.due = 0, !.x.snapi = IF e.how = 0 THEN Max(@, e.i) ELSE @]
               [] OTHER -> st0
      goesAlone == /\ e.ev = "Fail" /\ e.q.ty = "lc" /\ Cardinality(x0.conf.s) = 2 /\ i \in x0.conf.s
                   /\ Len(b0) > Len(x0.log) /\ b0[Len(b0)].k = ConfK /\ Range(b0[Len(b0)].s) = {i}
      st1 == [pre EXCEPT !.x.alone = @ \/ goesAlone, !.x.log = b0, !.x.start = Get(e, "start", @)]
      st2 == Fold(st1, Ops(e), 1, i, e, logs)
      st2b == IF st2.x.term # x0.term
              THEN [st2 EXCEPT !.x.pvotes = IF e.ev = "Resp" /\ e.m.ty = "pv" THEN @ ELSE {}]
              ELSE st2
      (* observed durable state must be what the recorded operations produced *)
      st3 == Bad(st2b, "harness", st2b.x.term = e.term /\ st2b.x.vote = e.vote)
      st4 == CASE e.ev = "Req" -> StepReq(st3, i, e)
               [] e.ev = "Client" -> StepClient(st3, i, e)
               [] e.ev = "Add" -> StepAdd(st3, i, e)
               [] e.ev = "Rm" -> StepRm(st3, i, e)
               [] e.ev = "IsLeader" -> LET c1 == Bad(st3, "is-leader", Has(e, "res") => (e.res <=> (x0.lead /\ Fresh(x0, i, e.ms, g.upper))))
                                       IN Bad(c1, "log-unchanged", b0 = x0.log)
               [] e.ev = "Timer" -> OwnAppend(st3, i, e, x0.log, b0)
               [] e.ev \in {"Resp", "Fail"} -> OwnAppend(Fwd(st3, i, e), i, e, x0.log, b0)
               [] e.ev \in {"Bg", "SnapDone", "Crash"} -> Bad(st3, "log-unchanged", b0 = x0.log)
               [] OTHER -> st3
      st5 == FoldOut(st4, Out(e), 1, i, e, [logs EXCEPT ![i] = b0])
      vrs == {k \in 1..Len(Out(e)) : Out(e)[k].ty = "vr"}
      pvs == {k \in 1..Len(Out(e)) : Out(e)[k].ty = "pv"}
      st6 == IF Has(e, "f")
             THEN Bad(st5, "log-matching", \A j \in DOMAIN nd : j = i \/ LogMatch(b0, nd[j].log))
             ELSE st5
      st7 == Bad(st6, "no-exit", /\ ~Has(e, "exc")
                                 /\ Exited(e) => IsRemovedExit(st6, i))
      (* what the listener is told: a leader of an earlier term has said that it is a follower now; having caught up means that
         nothing known to be committed is left to be applied, and is told after the last entry is applied *)
      didApply == {k \in 1..Len(Ops(e)) : Ops(e)[k].o \in {"commit", "cfg"}}
      toldUp == {k \in 1..Len(Ops(e)) : Ops(e)[k].o = "up"}
      st7a == Bad(st7, "role-events", Crashed(e) \/ Exited(e) \/ ~x0.lead \/ ~st7.x.lead \/ x0.term = st7.x.term
                                      \/ \E k \in 1..Len(Ops(e)) : Ops(e)[k].o = "lead")
      late == {k \in didApply : \A u \in toldUp : u < k}   \* applied and not yet told
      st7c == Bad(st7a, "caught-up", e.ev # "Bg" \/ Crashed(e) \/ Exited(e)
                                     \/ (/\ \A k \in didApply, u \in toldUp : k < u
                                         /\ Get(e, "idle", FALSE) => (late = {} /\ (x0.owe => toldUp # {}))))
      st7b == IF e.ev = "Bg" THEN [st7c EXCEPT !.x.owe = (late # {} \/ (@ /\ toldUp = {}))] ELSE st7c
      st8 == Bad(st7b, "committed-stays", Crashed(e) \/ ~st7.x.member \/ IsPfx(Prefix(st7.gg.clog, Max(x0.applied, st7.x.applied)), b0))
      st9 == [st8 EXCEPT !.x.cand = IF vrs # {} THEN TRUE ELSE IF st8.x.lead \/ \E k \in 1..Len(Ops(e)) : Ops(e)[k].o = "foll" THEN FALSE ELSE @,
                         !.x.pvotes = IF pvs # {} \/ vrs # {} THEN {} ELSE @,
                         !.x.jreq = @ \cup {Out(e)[k].id : k \in {z \in 1..Len(Out(e)) : Out(e)[z].ty = "is" /\ Out(e)[z].dst \notin st8.x.conf.s}},
                         !.x.fw = IF Has(e, "fid") THEN @ \cup {<<Out(e)[k].id, e.fid>> : k \in {z \in 1..Len(Out(e)) : Out(e)[z].ty \in {"cr", "as", "rs"}}} ELSE @,
                         !.gg.adds = IF e.ev = "Add" /\ ((Has(e, "r") /\ e.r.ok) \/ ~Has(e, "r")) THEN @ \cup {e.s} ELSE @,
                         !.gg.rms = IF e.ev = "Rm" /\ ((Has(e, "r") /\ e.r.ok) \/ ~Has(e, "r")) THEN @ \cup {e.s} ELSE @]
      dead == Crashed(e) \/ Exited(e)
      ops == Ops(e)
      st11 == Bad(st9, "compact-done",
                  (e.ev = "SnapDone" /\ ~dead /\ e.how = 0 /\ e.i > g.reserved /\ e.i - g.reserved >= x0.start)
                  => \E k \in 1..Len(ops) : ops[k].o = "compact" /\ ops[k].i = e.i - g.reserved)
      (* asking for pre-votes leaves term and vote alone, and a timer only raises the term of a candidate *)
      st12 == Bad(st11, "prevote-passive", pvs # {} => st9.x.term = x0.term /\ st9.x.vote = x0.vote)
      st13 == Bad(st12, "prevote-first", (g.prevote /\ e.ev = "Timer" /\ st9.x.term > x0.term)
                                          => x0.cand \/ Cardinality(Qm(st9.x, i)) = 1)
  IN  [st13 EXCEPT !.x.up = IF dead THEN FALSE ELSE @, !.x.lead = IF dead THEN FALSE ELSE @]

DoStart(e, i) ==
  LET x == nd[i]
      ops == Ops(e)
      (* a crash in the middle of a snapshot installation is repaired: the snapshot counts *)
      fixed == \E k \in 1..Len(ops) : ops[k].o = "compact"
      b1 == NewLog(e, x, g.clog)
      b0 == IF fixed /\ e.snapi <= Len(g.clog) THEN SubSeq(g.clog, 1, e.snapi) \o SubSeq(b1, e.snapi + 1, Len(b1)) ELSE b1
      cfgs == {k \in 1..Len(ops) : ops[k].o = "cfg"}
      cfg == IF cfgs = {} THEN e.cfg ELSE ops[CHOOSE k \in cfgs : TRUE].c
      rbs == {<<ops[k].i, ops[k].v>> : k \in {z \in 1..Len(ops) : ops[z].o = "rb"}}
      okops == \A k \in 1..Len(ops) :
                 \/ ops[k].o = "compact" /\ ops[k].i = e.snapi
                 \/ ops[k].o = "rb"
                 \/ ops[k].o = "cfg" /\ e.snapi > 0 /\ e.snapi <= Len(g.clog) /\ Range(ops[k].c.s) = ConfSeq(g, g.clog, e.snapi)
      oklog == IF ~fixed THEN b0 = x.log
               ELSE /\ e.start = e.snapi + 1
                    /\ e.snapi <= Len(g.clog)
                    /\ IF Len(x.log) > e.snapi /\ x.log[e.snapi].t = g.clog[e.snapi].t THEN b0 = x.log ELSE Len(b0) = e.snapi
      st == [x |-> [x EXCEPT !.up = TRUE, !.lead = FALSE, !.applied = Max(e.lc, e.snapi), !.cb = Max(e.lc, e.snapi),
                             !.conf = [s |-> Range(cfg.s), i |-> cfg.i],
                             !.votes = {}, !.pvotes = {}, !.quiet = FALSE, !.pre = {}, !.nopre = Len(b0), !.resp = <<>>,
                             !.snapp = 0, !.due = 0, !.snapi = e.snapi, !.ldr = Nil, !.leave = 0, !.owe = FALSE, !.cand = FALSE, !.fw = {}, !.jreq = {}, !.alone = FALSE, !.log = b0, !.start = Get(e, "start", x.start),
                             !.member = x.member \/ i \in g.mem],
             gg |-> g, bad |-> {}]
      s1 == Bad(st, "restart-state", e.term = x.term /\ e.vote = x.vote /\ Out(e) = <<>> /\ okops /\ oklog
                                     /\ rbs = AppSet(x.log, {k \in Removed(x.log, b0) : k > e.snapi}))
      s2 == Bad(s1, "no-exit", ~Has(e, "exc") /\ ~Exited(e))
  IN  s2

(* ---- end-of-run observations under a fair schedule *)
UpNodes == {j \in DOMAIN nd : nd[j].up}
(* no running member was asked to leave (it stays passive then), is about to be removed, or was removed without knowing it:
   such a server may still interfere *)
Calm == LET M == {j \in UpNodes : nd[j].member}
        IN  \A j \in M : /\ j \in ConfSeq(g, g.clog, Len(g.clog))
                         /\ nd[j].leave = 0
                         /\ \A k \in M : j \in ConfSeq(g, nd[k].log, Len(nd[k].log))
(* s was a member of some configuration in lg that a later one dropped: it needs a new identity or an empty store *)
FormerMember(s, lg) ==
  \E k \in 1..Len(lg) : /\ lg[k].k = ConfK /\ s \notin Range(lg[k].s)
                        /\ s \in g.mem \/ \E j \in 1..k : lg[j].k = ConfK /\ s \in Range(lg[j].s)
DoFinal(e) ==
  LET st == [x |-> <<>>, gg |-> g, bad |-> {}]
      L == IF Has(e, "l") THEN e.l ELSE 0
      mem == IF L = 0 THEN ConfSeq(g, g.clog, Len(g.clog)) ELSE nd[L].conf.s
      inmem == UpNodes \cap mem
      (* a server uses the configuration it has applied *)
      quorumUp == IsQuorum(UpNodes, mem) /\ (L = 0 => \A j \in inmem : IsQuorum(UpNodes, nd[j].conf.s))
  IN
  CASE e.ev = "FairStart" -> [st EXCEPT !.gg.fair = TRUE, !.gg.calm = Calm]
    [] e.ev = "Converged" ->
        [Bad(st, "live-leader", (g.calm /\ quorumUp) => (e.ok /\ L # 0 /\ nd[L].lead)) EXCEPT !.gg.fairterm = IF L = 0 THEN 0 ELSE nd[L].term]
    [] e.ev = "Applied" ->
        LET s1 == Bad(st, "live-commit", (g.calm /\ quorumUp) => AppliedOf(nd[L]) = Len(nd[L].log))
            s2 == Bad(s1, "live-catchup", (g.calm /\ quorumUp) => \A j \in inmem : nd[j].log = nd[L].log /\ AppliedOf(nd[j]) = AppliedOf(nd[L]))
            s3 == Bad(s2, "live-conf", (g.calm /\ quorumUp) => \A j \in inmem : nd[j].conf.s = ConfSeq(g, nd[L].log, Len(nd[L].log)))
        IN  s3
    [] e.ev = "End" ->
        LET s1 == Bad(st, "live-stable", (g.calm /\ quorumUp) => nd[L].lead /\ nd[L].term = g.fairterm /\ \A j \in inmem \ {L} : ~nd[j].lead)
        IN  s1
    [] e.ev = "Joined" ->
        LET s1 == Bad(st, "join-done", (g.calm /\ quorumUp /\ ~FormerMember(e.s, g.clog)) => e.s \in mem /\ nd[e.s].member /\ nd[e.s].log = nd[L].log /\ AppliedOf(nd[e.s]) = AppliedOf(nd[L]))
        IN  s1
    [] e.ev = "Left" -> Bad(st, "leave-done", (g.calm /\ quorumUp) => e.s \notin mem /\ ~nd[e.s].up)
    [] e.ev = "Died" -> Bad(st, "no-exit", FALSE)
    [] e.ev = "Hang" -> Bad(st, "no-hang", FALSE)
    [] OTHER -> st

DoInit(e) ==
  [x |-> <<>>, bad |-> {},
   gg |-> [NewGlobal EXCEPT !.all = Range(e.all), !.mem = Range(e.mem), !.prevote = e.prevote, !.def = e.def, !.snap = e.snap,
                            !.reserved = e.reserved, !.maxapp = e.maxapp, !.upper = e.upper, !.block = e.block, !.gap = e.gap]]

(* A run whose step breaks an enforced clause is reported and abandoned; validation goes on with the next run. *)
Verdict(bad) ==
  LET v == bad \cap Enforced
  IN  IF v = {} THEN TRUE ELSE PrintT(<<"CLAUSE-FAILED", v, l, Trace[l].ev, Trace[l].n>>) /\ TLCSet(1, TLCGet(1) + 1)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
         i == e.n
     IN IF e.ev = "Init"
        THEN LET r == DoInit(e) IN
             /\ g' = r.gg
             /\ nd' = [j \in r.gg.all |-> NewNode]
             /\ skip' = FALSE
        ELSE IF skip THEN UNCHANGED <<nd, g, skip>>
        ELSE IF i = 0
        THEN LET r == DoFinal(e) IN Verdict(r.bad) /\ g' = r.gg /\ nd' = nd /\ skip' = (r.bad \cap Enforced # {})
        ELSE LET r == IF e.ev = "Start" THEN DoStart(e, i) ELSE DoStep(e, i) IN
             /\ Verdict(r.bad)
             /\ g' = r.gg
             /\ nd' = [nd EXCEPT ![i] = r.x]
             /\ skip' = (r.bad \cap Enforced # {})

Init == l = 1 /\ nd = <<>> /\ g = NewGlobal /\ skip = FALSE /\ TLCSet(1, 0)

Spec == Init /\ [][Next]_vars

Accepted == /\ PrintT(<<"TRACE-LINES", Len(Trace), "VALIDATED", TLCGet("stats").diameter - 1, "REJECTED", TLCGet(1)>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
            /\ TLCGet(1) = 0
=============================================================================
