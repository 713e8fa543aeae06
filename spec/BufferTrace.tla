----------------------------- MODULE BufferTrace -----------------------------
(* Programs run on the real buffers, and objects serialized and deserialized by the real code, must follow the contract. *)
EXTENDS Buffer, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLE k
RECURSIVE Fold(_, _, _)
Fold(s, evs, i) == IF i > Len(evs) THEN TRUE ELSE Allowed(s, evs[i]) /\ Fold(After(s, evs[i]), evs, i + 1)
Ok(r) == IF "in" \in DOMAIN r THEN RoundTrip(r) ELSE Fold(Fresh(r.z), r.ev, 1)
Init == k = 1
Next == k <= N /\ k' = k + 1
Spec == Init /\ [][Next]_k
NotStuck == k <= N => Ok(Recs[k])
=============================================================================
