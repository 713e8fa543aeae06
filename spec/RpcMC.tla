------------------------------ MODULE RpcMC ------------------------------
(* How the RPC client and the session implement the contract: untagged responses on one connection, so that one call
   at a time is in progress and the others wait; a connection is closed at the first error and made again by the next
   call. The peer breaks connections at any moment until it is healed. Drop removes one ingredient. *)
EXTENDS Rpc, TLC
CONSTANTS Max, Drop                  \* Drop: "" | "queue" | "close" | "next" | "session-close"
VARIABLES n, pend, phase, conn, up, down, serving, bad, over, cs, ok
vars == <<n, pend, phase, conn, up, down, serving, bad, over, cs, ok>>
Init == n = 0 /\ pend = <<>> /\ phase = [i \in 1..Max |-> "none"] /\ conn = "closed" /\ up = <<>> /\ down = <<>> /\ serving = 0
        /\ bad = TRUE /\ over = FALSE /\ cs = Fresh(1) /\ ok = TRUE
Emit(e) == ok' = (ok /\ Allowed(cs, e)) /\ cs' = After(cs, e)
Quiet == UNCHANGED <<cs, ok>>
First(c) == IF c = "closed" THEN "connect" ELSE "write"
Call == n < Max /\ ~over /\ n' = n + 1 /\ pend' = Append(pend, n + 1)
        /\ phase' = [phase EXCEPT ![n + 1] = IF pend = <<>> \/ Drop = "queue" THEN First(conn) ELSE "wait"]
        /\ Emit([e |-> "call", id |-> n + 1, c |-> 0, d |-> n + 1]) /\ UNCHANGED <<conn, up, down, serving, bad, over>>
\* the call at the head is over: the next one begins
Complete(i, c) ==
  /\ pend' = SelectSeq(pend, LAMBDA x : x # i)
  /\ phase' = [j \in 1..Max |-> IF j = i THEN "done"
                                ELSE IF phase[j] = "wait" /\ pend' # <<>> /\ Head(pend') = j /\ Drop # "next" THEN First(c) ELSE phase[j]]
Fail(i, c) == Complete(i, c) /\ Emit([e |-> "fail", id |-> i, d |-> ""]) /\ conn' = c /\ UNCHANGED <<n, serving, bad, over>>
Closed == IF Drop = "close" THEN conn ELSE "closed"
Connect(i) == phase[i] = "connect" /\ conn' = "up" /\ up' = <<>> /\ down' = <<>> /\ phase' = [phase EXCEPT ![i] = "write"] /\ Quiet
              /\ serving' = 0 /\ UNCHANGED <<n, pend, bad, over>>
Refused(i) == phase[i] = "connect" /\ bad /\ Fail(i, "closed") /\ UNCHANGED <<up, down>>
Write(i) == phase[i] = "write" /\ conn = "up" /\ up' = Append(up, i) /\ phase' = [phase EXCEPT ![i] = "read"] /\ Quiet
            /\ UNCHANGED <<n, pend, conn, down, serving, bad, over>>
WriteErr(i) == phase[i] = "write" /\ conn \in {"dead", "closed"} /\ Fail(i, Closed) /\ UNCHANGED <<up, down>>
ReadOk(i) == phase[i] = "read" /\ conn = "up" /\ down # <<>> /\ down' = Tail(down) /\ Complete(i, conn)
             /\ Emit([e |-> "done", id |-> i, d |-> 100 + Head(down)]) /\ UNCHANGED <<n, conn, up, serving, bad, over>>
ReadErr(i) == phase[i] = "read" /\ conn \in {"dead", "closed"} /\ Fail(i, Closed) /\ UNCHANGED <<up, down>>
\* the session: one request at a time
Handle == conn = "up" /\ serving = 0 /\ up # <<>> /\ serving' = Head(up) /\ up' = Tail(up)
          /\ Emit([e |-> "handle", id |-> Head(up), d |-> Head(up)]) /\ UNCHANGED <<n, pend, phase, conn, down, bad, over>>
Respond == serving # 0 /\ serving' = 0 /\ down' = Append(down, serving) /\ Emit([e |-> "respond", id |-> serving, d |-> 100 + serving])
           /\ UNCHANGED <<n, pend, phase, conn, up, bad, over>>
NoResponse == serving # 0 /\ bad /\ serving' = 0 /\ conn' = (IF Drop = "session-close" THEN conn ELSE "dead")
              /\ Emit([e |-> "nores", id |-> serving, d |-> ""]) /\ UNCHANGED <<n, pend, phase, up, down, bad, over>>
Break == bad /\ conn = "up" /\ conn' = "dead" /\ up' = <<>> /\ down' = <<>> /\ serving' = 0 /\ Quiet /\ UNCHANGED <<n, pend, phase, bad, over>>
Heal == bad /\ bad' = FALSE /\ Emit([e |-> "heal"]) /\ UNCHANGED <<n, pend, phase, conn, up, down, serving, over>>
\* nothing can move any more
End == n = Max /\ ~over /\ serving = 0 /\ up = <<>> /\ down = <<>> /\ (\A i \in 1..Max : phase[i] \notin {"connect", "write"})
       /\ ~(conn \in {"dead", "closed"} /\ \E i \in 1..Max : phase[i] = "read")
       /\ over' = TRUE /\ Emit([e |-> "end"]) /\ UNCHANGED <<n, pend, phase, conn, up, down, serving, bad>>
Next == Call \/ Handle \/ Respond \/ NoResponse \/ Break \/ Heal \/ End
        \/ \E i \in 1..Max : Connect(i) \/ Refused(i) \/ Write(i) \/ WriteErr(i) \/ ReadOk(i) \/ ReadErr(i)
Spec == Init /\ [][Next]_vars
Contract == ok
=============================================================================
