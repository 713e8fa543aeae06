------------------------------- MODULE StopMC -------------------------------
(* How ~raft_server and commit_in_bg shake hands: the destructor sets stopping_ and wakes the background thread under the
   commit lock, then waits until that thread says it is over; the background thread checks under the same lock before it
   sleeps. The main thread commits entries before it destroys the server. Drop removes one ingredient. *)
EXTENDS Stop, TLC
CONSTANTS Entries, Spurious, Drop    \* Drop: "" | "stop-lock" | "notify" | "commit-lock" | "bg-flag" | "ready-check" | "recheck" | "wait-bg"
VARIABLES quick, applied, stopping, bgdone, m, b, lock, asleep, wake, slept, spur, cs, ok
vars == <<quick, applied, stopping, bgdone, m, b, lock, asleep, wake, slept, spur, cs, ok>>
\* m, b: where the main and the background thread are; lock: holder of the commit lock; asleep: waits for the commit
\* condition; wake: it was notified; slept: the destructor waits for the background thread
Init == quick = 0 /\ applied = 0 /\ stopping = FALSE /\ bgdone = FALSE /\ m = "run" /\ b = "loop" /\ lock = "" /\ asleep = FALSE /\ wake = FALSE
        /\ slept = FALSE /\ spur = Spurious /\ cs = Fresh /\ ok = TRUE
Emit(e) == ok' = (ok /\ Allowed(cs, e)) /\ cs' = After(cs, e)
Quiet == UNCHANGED <<cs, ok>>
\* commit(): the index goes up, then the thread is notified under the lock
Commit1 == m = "run" /\ quick < Entries /\ quick' = quick + 1 /\ m' = "notify" /\ Quiet
           /\ UNCHANGED <<applied, stopping, bgdone, b, lock, asleep, wake, slept, spur>>
Commit2 == m = "notify" /\ (lock = "" \/ Drop = "commit-lock") /\ m' = "run" /\ wake' = (wake \/ asleep) /\ Quiet
           /\ UNCHANGED <<quick, applied, stopping, bgdone, b, lock, asleep, slept, spur>>
Destroy == m = "run" /\ m' = "set" /\ Emit([e |-> "destroy"]) /\ UNCHANGED <<quick, applied, stopping, bgdone, b, lock, asleep, wake, slept, spur>>
SetStop == m = "set" /\ (lock = "" \/ Drop = "stop-lock") /\ stopping' = TRUE /\ wake' = (IF Drop = "notify" THEN wake ELSE wake \/ asleep)
           /\ m' = (IF Drop = "wait-bg" THEN "return" ELSE "await") /\ Quiet /\ UNCHANGED <<quick, applied, bgdone, b, lock, asleep, slept, spur>>
\* the wait checks the flag under its lock before it sleeps
Await == m = "await" /\ Quiet /\ UNCHANGED <<quick, applied, stopping, bgdone, b, lock, asleep, wake, spur>>
         /\ IF bgdone /\ Drop # "ready-check" THEN m' = "return" /\ slept' = FALSE ELSE m' = "asleep" /\ slept' = TRUE
Return == m = "return" /\ m' = "over" /\ Emit([e |-> "destroyed"]) /\ UNCHANGED <<quick, applied, stopping, bgdone, b, lock, asleep, wake, slept, spur>>
\* the background thread
BLoop == b = "loop" /\ b' = (IF quick <= applied THEN "lock" ELSE "apply") /\ Quiet /\ UNCHANGED <<quick, applied, stopping, bgdone, m, lock, asleep, wake, slept, spur>>
BLock == b = "lock" /\ lock = "" /\ lock' = "b" /\ b' = "check" /\ Quiet /\ UNCHANGED <<quick, applied, stopping, bgdone, m, asleep, wake, slept, spur>>
Ready == (stopping \/ quick > applied)
BCheck == b = "check" /\ lock = "b" /\ Quiet /\ UNCHANGED <<quick, applied, stopping, bgdone, m, lock, asleep, wake, slept, spur>>
          /\ b' = (IF Ready THEN "woken" ELSE "sleep")
BSleep == b = "sleep" /\ lock' = "" /\ asleep' = TRUE /\ wake' = FALSE /\ b' = "asleep" /\ Quiet /\ UNCHANGED <<quick, applied, stopping, bgdone, m, slept, spur>>
BWake == b = "asleep" /\ lock = "" /\ (wake \/ spur > 0) /\ spur' = (IF wake THEN spur ELSE spur - 1) /\ lock' = "b" /\ asleep' = FALSE /\ wake' = FALSE
         /\ b' = (IF Drop = "recheck" THEN "woken" ELSE "check") /\ Quiet /\ UNCHANGED <<quick, applied, stopping, bgdone, m, slept>>
BWoken == b = "woken" /\ lock' = "" /\ b' = (IF stopping THEN "stop" ELSE IF Drop = "recheck" THEN "apply" ELSE "loop") /\ Quiet
          /\ UNCHANGED <<quick, applied, stopping, bgdone, m, asleep, wake, slept, spur>>
BApply == b = "apply" /\ applied' = applied + 1 /\ Emit([e |-> "apply", i |-> applied + 1]) /\ b' = (IF applied + 1 < quick THEN "apply" ELSE "loop")
          /\ UNCHANGED <<quick, stopping, bgdone, m, lock, asleep, wake, slept, spur>>
BStop == b = "stop" /\ b' = "over" /\ bgdone' = (Drop # "bg-flag") /\ m' = (IF slept THEN "await" ELSE m) /\ slept' = FALSE /\ Quiet
         /\ UNCHANGED <<quick, applied, stopping, lock, asleep, wake, spur>>
Next == Commit1 \/ Commit2 \/ Destroy \/ SetStop \/ Await \/ Return \/ BLoop \/ BLock \/ BCheck \/ BSleep \/ BWake \/ BWoken \/ BApply \/ BStop
Spec == Init /\ [][Next]_vars
\* the contract; nothing is applied that was not committed; the destructor is never left waiting, and a committed entry
\* is never left behind by a sleeping thread
Contract ==
  /\ ok
  /\ applied <= quick
  /\ ~(m = "asleep" /\ b = "over") /\ ~(m = "asleep" /\ b = "asleep" /\ ~wake)
  /\ ~(m = "run" /\ b = "asleep" /\ ~wake /\ quick > applied)
  /\ (m = "over" => b = "over")
=============================================================================
