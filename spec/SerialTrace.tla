---------------------------- MODULE SerialTrace ----------------------------
(* Executions of several calls into one real server under explored schedules must follow the contract, with the outcomes
   of the serial orders as produced by the same server. *)
EXTENDS Serial, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLE k
RECURSIVE Fold(_, _, _, _)
Fold(serial, s, evs, i) == IF i > Len(evs) THEN TRUE ELSE Allowed(serial, s, evs[i]) /\ Fold(serial, After(s, evs[i]), evs, i + 1)
Ok(r) == Fold(r.serial, Fresh, r.ev, 1) /\ r.ev[Len(r.ev)].e = "end"
Init == k = 1
Next == k <= N /\ k' = k + 1
Spec == Init /\ [][Next]_k
NotStuck == k <= N => Ok(Recs[k])
=============================================================================
