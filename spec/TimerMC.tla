------------------------------ MODULE TimerMC ------------------------------
(* How asio_service implements delayed tasks: a timer with one pending wait, completed waits queued for the workers,
   a round number per scheduling and a cancelled flag. TLC checks the contract of Timer for one task and all orders of
   calls, expiry and handler execution; Drop removes one ingredient. *)
EXTENDS Timer, TLC
CONSTANTS MaxOps, MaxTime, Drop       \* Drop: "" | "round" | "flag" | "reset" | "cancel-wait"
VARIABLES now, ops, call, wait, ready, round, cancelled, cs, ok
vars == <<now, ops, call, wait, ready, round, cancelled, cs, ok>>
None == [at |-> -1, round |-> 0]
Init == now = 0 /\ ops = MaxOps /\ call = <<"none", 0>> /\ wait = None /\ ready = {} /\ round = 0 /\ cancelled = FALSE /\ cs = Fresh /\ ok = TRUE
Emit(e) == ok' = (ok /\ Allowed(cs, e)) /\ cs' = After(cs, e)
E0(n) == [e |-> n, t |-> 0, now |-> 1000 * now]
Quiet == UNCHANGED <<cs, ok>>
\* handlers: [ok, round]; a wait that is cancelled completes with an error
Abort == IF wait.at >= 0 THEN ready \cup {[ok |-> FALSE, round |-> wait.round]} ELSE ready
BeginSched == \E d \in 0..2 : ops > 0 /\ call[1] = "none" /\ now + d <= MaxTime /\ ops' = ops - 1 /\ call' = <<"sched", d>>
                /\ Emit([e |-> "sched", t |-> 0, now |-> 1000 * now, d |-> d]) /\ UNCHANGED <<now, wait, ready, round, cancelled>>
\* ++round; reset(); expires_after(); async_wait() -- with the workers in between
Sched1 == call[1] = "sched" /\ call' = <<"sched2", call[2]>> /\ round' = round + 1 /\ Quiet /\ UNCHANGED <<now, ops, wait, ready, cancelled>>
Sched2 == call[1] = "sched2" /\ call' = <<"sched3", call[2]>> /\ cancelled' = (Drop = "reset" /\ cancelled) /\ Quiet /\ UNCHANGED <<now, ops, wait, ready, round>>
Sched3 == call[1] = "sched3" /\ call' = <<"schedr", 0>> /\ ready' = Abort /\ wait' = [at |-> now + call[2], round |-> round] /\ Quiet /\ UNCHANGED <<now, ops, round, cancelled>>
BeginCancel == ops > 0 /\ call[1] = "none" /\ ops' = ops - 1 /\ call' = <<"cancel", 0>> /\ Emit(E0("cancel")) /\ UNCHANGED <<now, wait, ready, round, cancelled>>
Cancel1 == call[1] = "cancel" /\ call' = <<"cancel2", 0>> /\ cancelled' = (IF Drop = "flag" THEN cancelled ELSE TRUE) /\ Quiet /\ UNCHANGED <<now, ops, wait, ready, round>>
Cancel2 == call[1] = "cancel2" /\ call' = <<"cancelr", 0>> /\ Quiet /\ UNCHANGED <<now, ops, round, cancelled>>
           /\ IF Drop = "cancel-wait" THEN UNCHANGED <<ready, wait>> ELSE ready' = Abort /\ wait' = None
Return == call[1] \in {"schedr", "cancelr"} /\ call' = <<"none", 0>> /\ Emit(E0(IF call[1] = "schedr" THEN "schedd" ELSE "canceld"))
          /\ UNCHANGED <<now, ops, wait, ready, round, cancelled>>
Expire == wait.at >= 0 /\ wait.at <= now /\ ready' = ready \cup {[ok |-> TRUE, round |-> wait.round]} /\ wait' = None /\ Quiet
          /\ UNCHANGED <<now, ops, call, round, cancelled>>
Handler == \E h \in ready :
             /\ ready' = ready \ {h}
             /\ IF h.ok /\ (Drop = "round" \/ h.round = round) /\ ~cancelled THEN Emit(E0("run")) ELSE Quiet
             /\ UNCHANGED <<now, ops, call, wait, round, cancelled>>
\* time passes when no handler is about to run and the caller is idle
Tick == now < MaxTime + 1 /\ call[1] = "none" /\ ready = {} /\ (wait.at = -1 \/ wait.at > now) /\ now' = now + 1 /\ Quiet
        /\ UNCHANGED <<ops, call, wait, ready, round, cancelled>>
Idle == call[1] = "none" /\ ready = {} /\ wait.at = -1
Next == BeginSched \/ Sched1 \/ Sched2 \/ Sched3 \/ BeginCancel \/ Cancel1 \/ Cancel2 \/ Return \/ Expire \/ Handler \/ Tick
Spec == Init /\ [][Next]_vars
Contract == ok /\ (Idle => Allowed(cs, [e |-> "end"]))
=============================================================================
