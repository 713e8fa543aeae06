----------------------------- MODULE LoggerTrace -----------------------------
(* Executions of the real file logger under explored schedules must be behaviours of the contract. *)
EXTENDS Logger, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLE k
RECURSIVE Fold(_, _, _)
Fold(s, evs, i) == IF i > Len(evs) THEN TRUE ELSE Allowed(s, evs[i]) /\ Fold(After(s, evs[i]), evs, i + 1)
Ok(r) == Fold(Fresh(r.level), r.ev, 1) /\ r.ev[Len(r.ev)].e = "end"
Init == k = 1
Next == k <= N /\ k' = k + 1
Spec == Init /\ [][Next]_k
NotStuck == k <= N => Ok(Recs[k])
=============================================================================
