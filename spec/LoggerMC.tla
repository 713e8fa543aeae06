----------------------------- MODULE LoggerMC -----------------------------
(* How asio_service and the file logger implement the contract: lines go to a queue under a lock; the flush handler takes
   the queue over and writes it; stop() cancels the flush timer and waits for one last flush; the logger's destructor
   flushes what came later. Drop removes one ingredient. *)
EXTENDS Logger, TLC
CONSTANTS Threads, Lines, Drop      \* Drop: "" | "lock" | "arm-lock" | "last-flush" | "destructor" | "early-done"
VARIABLES n, wpc, tmp, buf, bak, file, timer, h, last, st, stopping, flushed, cs, ok
vars == <<n, wpc, tmp, buf, bak, file, timer, h, last, st, stopping, flushed, cs, ok>>
Init == n = [t \in Threads |-> 0] /\ wpc = [t \in Threads |-> "idle"] /\ tmp = [t \in Threads |-> <<>>] /\ buf = <<>> /\ bak = <<>> /\ file = <<>>
        /\ timer = "armed" /\ h = "idle" /\ last = FALSE /\ st = "none" /\ stopping = FALSE /\ flushed = FALSE /\ cs = Fresh(<<1>>) /\ ok = TRUE
Emit(e) == ok' = (ok /\ Allowed(cs, e)) /\ cs' = After(cs, e)
Quiet == UNCHANGED <<cs, ok>>
LogCall(t) == wpc[t] = "idle" /\ n[t] < Lines /\ n' = [n EXCEPT ![t] = @ + 1] /\ wpc' = [wpc EXCEPT ![t] = "push"]
              /\ Emit([e |-> "log", t |-> t, f |-> 0, l |-> 1, s |-> <<t, n[t] + 1>>]) /\ UNCHANGED <<tmp, buf, bak, file, timer, h, last, st, stopping, flushed>>
Push(t) == wpc[t] = "push" /\ Quiet /\ UNCHANGED <<n, bak, file, timer, h, last, st, stopping, flushed>>
           /\ IF Drop = "lock" THEN tmp' = [tmp EXCEPT ![t] = buf] /\ wpc' = [wpc EXCEPT ![t] = "push2"] /\ UNCHANGED buf
              ELSE buf' = Append(buf, <<t, n[t]>>) /\ wpc' = [wpc EXCEPT ![t] = "ret"] /\ UNCHANGED tmp
Push2(t) == wpc[t] = "push2" /\ buf' = Append(tmp[t], <<t, n[t]>>) /\ wpc' = [wpc EXCEPT ![t] = "ret"] /\ Quiet
            /\ UNCHANGED <<n, tmp, bak, file, timer, h, last, st, stopping, flushed>>
LogRet(t) == wpc[t] = "ret" /\ wpc' = [wpc EXCEPT ![t] = "idle"] /\ Emit([e |-> "logd", t |-> t, late |-> IF st = "none" THEN 0 ELSE 1])
             /\ UNCHANGED <<n, tmp, buf, bak, file, timer, h, last, st, stopping, flushed>>
\* the timer's handler: fired by expiry or by cancellation
Fire == timer = "armed" /\ h = "idle" /\ timer' = "off" /\ h' = "check" /\ Quiet /\ UNCHANGED <<n, wpc, tmp, buf, bak, file, last, st, stopping, flushed>>
Check == h = "check" /\ last' = stopping /\ Quiet /\ UNCHANGED <<n, wpc, tmp, buf, bak, file, st, stopping, flushed>>
         /\ IF Drop = "arm-lock" /\ ~stopping THEN h' = "arm" /\ UNCHANGED timer
            ELSE h' = (IF Drop = "last-flush" /\ stopping THEN "notify" ELSE "take") /\ timer' = (IF stopping THEN timer ELSE "armed2")
Arm == h = "arm" /\ h' = "take" /\ timer' = "armed2" /\ Quiet /\ UNCHANGED <<n, wpc, tmp, buf, bak, file, last, st, stopping, flushed>>
Take == h = "take" /\ bak' = buf /\ buf' = <<>> /\ h' = "write" /\ Quiet /\ UNCHANGED <<n, wpc, tmp, file, timer, last, st, stopping, flushed>>
Write == h = "write" /\ Quiet /\ UNCHANGED <<n, wpc, tmp, buf, timer, last, st, stopping, flushed>>
         /\ IF bak = <<>> THEN h' = (IF last THEN "notify" ELSE "idle") /\ UNCHANGED <<bak, file>>
            ELSE file' = Append(file, Head(bak)) /\ bak' = Tail(bak) /\ UNCHANGED h
Notify == h = "notify" /\ flushed' = TRUE /\ h' = "idle" /\ Quiet /\ UNCHANGED <<n, wpc, tmp, buf, bak, file, timer, last, st, stopping>>
\* the rearmed timer (very long) only fires by cancellation; cancelling an unarmed timer does nothing
Stop == st = "none" /\ st' = "set" /\ stopping' = TRUE /\ Emit([e |-> "stop"]) /\ UNCHANGED <<n, wpc, tmp, buf, bak, file, h, timer, last, flushed>>
Cancel == st = "set" /\ st' = "wait" /\ timer' = (IF timer = "armed2" THEN "armed" ELSE timer) /\ Quiet
          /\ UNCHANGED <<n, wpc, tmp, buf, bak, file, h, last, stopping, flushed>>
Texts == [i \in 1..Len(file) |-> <<"info", file[i]>>]
StopDone == st = "wait" /\ (flushed \/ Drop = "early-done") /\ st' = "stopped" /\ Emit([e |-> "file", f |-> 0, final |-> 0, lines |-> Texts])
            /\ UNCHANGED <<n, wpc, tmp, buf, bak, file, timer, h, last, stopping, flushed>>
Destroy == st = "stopped" /\ h = "idle" /\ (\A t \in Threads : wpc[t] = "idle" /\ n[t] = Lines) /\ st' = "gone"
           /\ file' = file \o (IF Drop = "destructor" THEN <<>> ELSE buf) /\ buf' = <<>>
           /\ Emit([e |-> "file", f |-> 0, final |-> 1, lines |-> [i \in 1..Len(file') |-> <<"info", file'[i]>>]])
           /\ UNCHANGED <<n, wpc, tmp, bak, timer, h, last, stopping, flushed>>
Next == Fire \/ Check \/ Arm \/ Take \/ Write \/ Notify \/ Stop \/ Cancel \/ StopDone \/ Destroy
        \/ \E t \in Threads : LogCall(t) \/ Push(t) \/ Push2(t) \/ LogRet(t)
Spec == Init /\ [][Next]_vars
\* the contract, and stop() is never left waiting for a flush that will not come
Contract == ok /\ ~(st = "wait" /\ ~flushed /\ h = "idle" /\ timer \in {"off", "armed2"} /\ \A t \in Threads : wpc[t] = "idle")
=============================================================================
