------------------------------ MODULE AsyncMC ------------------------------
(* The protocol of async.hxx, one action per step between two points where another thread can come in: a mutex, a
   condition variable with spurious wake-ups, the flag and the handler slot. TLC checks that every behaviour keeps the
   contract of Async. The switches in Drop remove one ingredient each; the contract must then be broken, which
   shows that each of them is needed (and that the contract is able to notice). *)
EXTENDS Async, TLC
CONSTANTS Getters, Drop, Spurious
\* Drop: "" | "check-outside" (when_ready looks at the flag before taking the lock) | "if-wait" (no re-check after wake-up)
\*       | "no-notify" | "notify-one" | "late-flag" (flag raised after the lock is released, before the notification, waiters check under the lock)
\*       | "handler-outside" (set_result reads the handler before it takes the lock)
S == "s"  R == "r"
Threads == {S, R} \cup Getters
VARIABLES pc, lock, has, res, slot, seen, waiting, cs, ok, sp
vars == <<pc, lock, has, res, slot, seen, waiting, cs, ok, sp>>
Init == /\ pc = [t \in Threads |-> "start"] /\ lock = "" /\ has = FALSE /\ res = "" /\ slot = "" /\ seen = [t \in Threads |-> FALSE]
        /\ waiting = {} /\ cs = Fresh /\ ok = TRUE /\ sp = Spurious
Emit(e) == ok' = (ok /\ Allowed(cs, e)) /\ cs' = After(cs, e)
Quiet == UNCHANGED <<cs, ok>>
V(t, n) == [e |-> n, t |-> t, v |-> res, x |-> 0]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Acquire(t) == lock = "" /\ lock' = t
Release(t) == lock = t /\ lock' = ""

Setter ==
  \/ pc[S] = "start" /\ Go(S, IF Drop = "handler-outside" THEN "look" ELSE "lock") /\ Emit([e |-> "set", t |-> S, v |-> "v", x |-> 0]) /\ UNCHANGED <<lock, has, res, slot, seen, waiting, sp>>
  \/ pc[S] = "look" /\ seen' = [seen EXCEPT ![S] = slot # ""] /\ Go(S, "lock") /\ Quiet /\ UNCHANGED <<lock, has, res, slot, waiting, sp>>
  \/ pc[S] = "lock" /\ Acquire(S) /\ Go(S, "in") /\ Quiet /\ UNCHANGED <<has, res, slot, seen, waiting, sp>>
  \/ /\ pc[S] = "in" /\ res' = "v" /\ has' = (Drop # "late-flag")
     /\ seen' = IF Drop = "handler-outside" THEN seen ELSE [seen EXCEPT ![S] = slot # ""]
     /\ Release(S) /\ Go(S, IF Drop = "late-flag" THEN "flag" ELSE "run") /\ Quiet /\ UNCHANGED <<slot, waiting, sp>>
  \/ pc[S] = "flag" /\ has' = TRUE /\ Go(S, "run") /\ Quiet /\ UNCHANGED <<lock, res, slot, seen, waiting, sp>>
  \/ pc[S] = "run" /\ Go(S, "wake") /\ (IF seen[S] THEN Emit(V(R, "run")) ELSE Quiet) /\ UNCHANGED <<lock, has, res, slot, seen, waiting, sp>>
  \/ /\ pc[S] = "wake" /\ Go(S, "ret") /\ Quiet /\ UNCHANGED <<lock, has, res, slot, seen, sp>>
     /\ IF Drop = "no-notify" THEN UNCHANGED waiting
        ELSE IF Drop = "notify-one" /\ waiting # {} THEN \E w \in waiting : waiting' = waiting \ {w}
        ELSE waiting' = {}
  \/ pc[S] = "ret" /\ Go(S, "done") /\ Emit([e |-> "setd", t |-> S]) /\ UNCHANGED <<lock, has, res, slot, seen, waiting, sp>>

Registrar ==
  \/ pc[R] = "start" /\ Go(R, IF Drop = "check-outside" THEN "look" ELSE "lock") /\ Emit([e |-> "reg", t |-> R]) /\ UNCHANGED <<lock, has, res, slot, seen, waiting, sp>>
  \/ pc[R] = "look" /\ seen' = [seen EXCEPT ![R] = has] /\ Go(R, "lock") /\ Quiet /\ UNCHANGED <<lock, has, res, slot, waiting, sp>>
  \/ pc[R] = "lock" /\ Acquire(R) /\ Go(R, "in") /\ Quiet /\ UNCHANGED <<has, res, slot, seen, waiting, sp>>
  \/ /\ pc[R] = "in" /\ slot' = R /\ Release(R)
     /\ seen' = IF Drop = "check-outside" THEN seen ELSE [seen EXCEPT ![R] = has]
     /\ Go(R, "run") /\ Quiet /\ UNCHANGED <<has, res, waiting, sp>>
  \/ pc[R] = "run" /\ Go(R, "ret") /\ (IF seen[R] THEN Emit(V(R, "run")) ELSE Quiet) /\ UNCHANGED <<lock, has, res, slot, seen, waiting, sp>>
  \/ pc[R] = "ret" /\ Go(R, "done") /\ Emit([e |-> "regd", t |-> R]) /\ UNCHANGED <<lock, has, res, slot, seen, waiting, sp>>

Getter(g) ==
  \/ pc[g] = "start" /\ Go(g, "lock") /\ Emit([e |-> "get", t |-> g]) /\ UNCHANGED <<lock, has, res, slot, seen, waiting, sp>>
  \/ pc[g] = "lock" /\ Acquire(g) /\ Go(g, "check") /\ Quiet /\ UNCHANGED <<has, res, slot, seen, waiting, sp>>
  \/ pc[g] = "check" /\ Go(g, IF has THEN "out" ELSE "sleep") /\ Quiet /\ UNCHANGED <<lock, has, res, slot, seen, waiting, sp>>
  \/ pc[g] = "sleep" /\ Release(g) /\ waiting' = waiting \cup {g} /\ Go(g, "asleep") /\ Quiet /\ UNCHANGED <<has, res, slot, seen, sp>>
  \/ pc[g] = "asleep" /\ g \in waiting /\ sp > 0 /\ sp' = sp - 1 /\ waiting' = waiting \ {g} /\ Quiet /\ UNCHANGED <<pc, lock, has, res, slot, seen>>
  \/ pc[g] = "asleep" /\ g \notin waiting /\ Acquire(g) /\ Go(g, IF Drop = "if-wait" THEN "out" ELSE "check") /\ Quiet /\ UNCHANGED <<has, res, slot, seen, waiting, sp>>
  \/ pc[g] = "out" /\ Release(g) /\ Go(g, "ret") /\ Quiet /\ UNCHANGED <<has, res, slot, seen, waiting, sp>>
  \/ pc[g] = "ret" /\ Go(g, "done") /\ Emit(V(g, "getd")) /\ UNCHANGED <<lock, has, res, slot, seen, waiting, sp>>

AllDone == \A t \in Threads : pc[t] = "done"
Finish == AllDone /\ UNCHANGED vars
Next == Setter \/ Registrar \/ (\E g \in Getters : Getter(g)) \/ Finish
Spec == Init /\ [][Next]_vars
Contract == ok /\ (AllDone => Allowed(cs, [e |-> "end"]))
\* deadlock checking covers "stuck"
=============================================================================
