------------------------------ MODULE SerialMC ------------------------------
(* How a server serves calls of several threads: vote requests, append requests, client requests, its own election timer
   and votes it is given. Every call runs in small steps (read, decide, save, answer) with the server's lock held; an answer first looks
   its peer up under the peers lock, which an append request that carries a configuration takes too. The outcome
   must be one of a serial order. Drop removes one ingredient. *)
EXTENDS Serial, FiniteSets, TLC
CONSTANTS Threads, Drop     \* Drop: "" | "req-lock" | "timer-lock" | "resp-lock" | "client-lock" | "release" | "durable"
Menu == {[k |-> "vote", t |-> 2, from |-> 2], [k |-> "vote", t |-> 2, from |-> 3], [k |-> "append", t |-> 2, from |-> 2],
         [k |-> "append", t |-> 3, from |-> 3], [k |-> "timer"], [k |-> "granted", t |-> 2], [k |-> "client"]}
Cand == [term |-> 2, vote |-> 1, role |-> "C", got |-> 1, log |-> <<1>>, saved |-> <<>>, sent |-> {}, disk |-> <<2, 1>>, bad |-> ""]
Foll == [Cand EXCEPT !.term = 1, !.vote = 0, !.role = "F", !.got = 0, !.disk = <<1, 0>>]
L0 == [term |-> 0, vote |-> 0, role |-> "", len |-> 0, ok |-> FALSE, log |-> <<>>]
Read(st) == [L0 EXCEPT !.term = st.term, !.vote = st.vote, !.role = st.role, !.len = Len(st.log), !.log = st.log]
Save(st) == IF Drop = "durable" THEN st ELSE [st EXCEPT !.saved = Append(@, <<st.term, st.vote>>), !.disk = <<st.term, st.vote>>]
Send(st, m) == [st EXCEPT !.sent = @ \union {m}, !.bad = IF st.disk[1] < m[2] THEN "term" ELSE @]
\* step i of call o on the server st with the registers l: <<server, registers, answer>>
Steps(o) == IF o.k = "client" THEN 2 ELSE 4
Micro(o, i, st, l) ==
  IF i = 1 THEN <<st, Read(st), "">> ELSE
  CASE o.k = "vote" ->
         (CASE i = 2 -> LET ok == o.t > l.term \/ (o.t = l.term /\ l.vote \in {0, o.from}) IN
                        <<IF o.t > l.term THEN [st EXCEPT !.term = o.t, !.vote = o.from, !.role = "F"]
                          ELSE IF ok THEN [st EXCEPT !.vote = o.from] ELSE st, [l EXCEPT !.ok = ok], "">>
            [] i = 3 -> <<IF l.ok THEN Save(st) ELSE st, l, "">>
            [] i = 4 -> <<st, l, IF l.ok THEN "yes" ELSE "no">>)
    [] o.k = "append" ->
         (CASE i = 2 -> LET ok == o.t >= l.term IN
                        <<IF o.t > l.term THEN [st EXCEPT !.term = o.t, !.vote = 0, !.role = "F"] ELSE IF ok THEN [st EXCEPT !.role = "F"] ELSE st,
                          [l EXCEPT !.ok = ok], "">>
            [] i = 3 -> <<IF l.ok /\ o.t > l.term THEN Save(st) ELSE st, l, "">>
            [] i = 4 -> <<IF l.ok THEN [st EXCEPT !.log = SubSeq(@, 1, 1) \o <<o.t>>] ELSE st, l, IF l.ok THEN "yes" ELSE "no">>)
    [] o.k = "timer" ->
         (CASE i = 2 -> <<IF l.role = "L" THEN st ELSE [st EXCEPT !.term = l.term + 1, !.vote = 1, !.role = "C", !.got = 1], [l EXCEPT !.ok = l.role # "L"], "">>
            [] i = 3 -> <<IF l.ok THEN Save(st) ELSE st, l, "">>
            [] i = 4 -> <<IF l.ok THEN Send(st, <<"vote", st.term, Len(st.log)>>) ELSE st, l, "-">>)
    [] o.k = "granted" ->
         (CASE i = 2 -> LET ok == l.role = "C" /\ l.term = o.t IN <<IF ok THEN [st EXCEPT !.got = @ + 1] ELSE st, [l EXCEPT !.ok = ok], "">>
            [] i = 3 -> <<IF l.ok /\ st.got >= 2 THEN [st EXCEPT !.role = "L"] ELSE st, l, "">>
            [] i = 4 -> <<IF l.ok /\ st.role = "L" THEN Send(st, <<"append", st.term, Len(st.log)>>) ELSE st, l, "-">>)
    [] o.k = "client" -> <<IF l.role = "L" THEN [st EXCEPT !.log = l.log \o <<l.term>>] ELSE st, l, IF l.role = "L" THEN "yes" ELSE "no">>
RECURSIVE Run(_, _, _, _)
Run(o, i, st, l) == LET r == Micro(o, i, st, l) IN IF i = Steps(o) THEN <<r[1], r[3]>> ELSE Run(o, i + 1, r[1], r[2])
Result(st, res) == [res |-> res, term |-> st.term, vote |-> st.vote, role |-> st.role, log |-> st.log, saved |-> st.saved, sent |-> st.sent, bad |-> st.bad]
RECURSIVE Orders(_, _, _, _)
Orders(todo, st, res, ops) ==
  IF todo = {} THEN {Result(st, res)}
  ELSE UNION {LET r == Run(ops[t], 1, st, L0) IN Orders(todo \ {t}, r[1], [res EXCEPT ![t] = r[2]], ops) : t \in todo}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
VARIABLES calls, srv, start, reg, pc, lock, plock, res
vars == <<calls, srv, start, reg, pc, lock, plock, res>>
\* pc: "peers" | "release" | "lock" | "inner" (takes the peers lock inside) | 1..4 | "over"
Nobody == 0
Init == /\ calls \in [Threads -> Menu] /\ start \in {Cand, Foll, [Cand EXCEPT !.role = "L", !.got = 2]} /\ srv = start
        /\ reg = [t \in Threads |-> L0] /\ lock = Nobody /\ plock = Nobody /\ res = [t \in Threads |-> ""]
        /\ pc = [t \in Threads |-> IF calls[t].k = "granted" THEN "peers" ELSE "lock"]
        /\ \A t, u \in Threads : t # u /\ calls[t].k = "append" /\ calls[u].k = "append" => calls[t].t # calls[u].t
Unlocked(o) == CASE o.k \in {"vote", "append"} -> Drop = "req-lock"
                 [] o.k = "timer" -> Drop = "timer-lock"
                 [] o.k = "granted" -> Drop = "resp-lock"
                 [] o.k = "client" -> Drop = "client-lock"
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Peers(t) == pc[t] = "peers" /\ plock = Nobody /\ plock' = t /\ Go(t, "release") /\ UNCHANGED <<calls, srv, start, reg, lock, res>>
Release(t) == pc[t] = "release" /\ plock' = (IF Drop = "release" THEN plock ELSE Nobody) /\ Go(t, "lock") /\ UNCHANGED <<calls, srv, start, reg, lock, res>>
Lock(t) == /\ pc[t] = "lock" /\ (lock = Nobody \/ Unlocked(calls[t])) /\ lock' = (IF Unlocked(calls[t]) THEN lock ELSE t)
           /\ Go(t, IF calls[t].k = "append" THEN "inner" ELSE "1") /\ UNCHANGED <<calls, srv, start, reg, plock, res>>
Inner(t) == pc[t] = "inner" /\ plock = Nobody /\ Go(t, "1") /\ UNCHANGED <<calls, srv, start, reg, lock, plock, res>>
Num(p) == CASE p = "1" -> 1 [] p = "2" -> 2 [] p = "3" -> 3 [] p = "4" -> 4 [] OTHER -> 0
Step(t) == LET i == Num(pc[t]) r == Micro(calls[t], i, srv, reg[t]) last == i = Steps(calls[t]) IN
           /\ i > 0 /\ srv' = r[1] /\ reg' = [reg EXCEPT ![t] = r[2]]
           /\ res' = (IF last THEN [res EXCEPT ![t] = r[3]] ELSE res)
           /\ Go(t, IF last THEN "over" ELSE ToString(i + 1))
           /\ lock' = (IF last /\ lock = t THEN Nobody ELSE lock) /\ plock' = (IF last /\ plock = t THEN Nobody ELSE plock)
           /\ UNCHANGED <<calls, start>>
Next == \E t \in Threads : Peers(t) \/ Release(t) \/ Lock(t) \/ Inner(t) \/ Step(t)
Spec == Init /\ [][Next]_vars
Over == \A t \in Threads : pc[t] = "over"
\* every call returns, and what comes out is allowed by the contract
Contract ==
  /\ ~Over => ENABLED Next
  /\ Over => Allowed(SeqOf(Orders(Threads, start, [t \in Threads |-> ""], calls)), Fresh, [e |-> "out", o |-> Result(srv, res)])
=============================================================================
