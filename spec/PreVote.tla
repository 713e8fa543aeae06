------------------------------ MODULE PreVote -------------------------------
(* What pre-vote is for: as long as a majority keeps hearing from the leader, nobody raises its term, whatever the
   others do and whatever happens to their messages (requests and replies are never taken out of the network).
   Healthy servers hear from the leader often enough for their election timer never to fire.  Drop: rules left out. *)
EXTENDS Naturals, FiniteSets
CONSTANTS Server, Healthy, Drop
VARIABLES quiet,   \* the election timer fired since the server last heard from a leader
          got,     \* who told it that it may campaign (itself included)
          term, reqs, reps
vars == <<quiet, got, term, reqs, reps>>
Quorum(S) == 2 * Cardinality(S) > (IF "prevote-quorum" \in Drop THEN Cardinality(Server) - 2 ELSE Cardinality(Server))
Init == /\ quiet = [i \in Server |-> FALSE] /\ got = [i \in Server |-> {}] /\ term = [i \in Server |-> 1]
        /\ reqs = {} /\ reps = {}
Hear(i) == /\ quiet' = [quiet EXCEPT ![i] = FALSE] /\ got' = [got EXCEPT ![i] = {}] /\ UNCHANGED <<term, reqs, reps>>
Timeout(i) == /\ i \notin Healthy /\ quiet' = [quiet EXCEPT ![i] = TRUE] /\ got' = [got EXCEPT ![i] = {i}]
              /\ reqs' = reqs \cup {<<i, j>> : j \in Server \ {i}}
              /\ term' = IF "prevote-first" \in Drop THEN [term EXCEPT ![i] = 2] ELSE term
              /\ UNCHANGED reps
Answer(i, j) == /\ <<i, j>> \in reqs /\ (quiet[j] \/ "prevote-defensive" \in Drop) = TRUE
                /\ reps' = reps \cup {<<i, j>>} /\ UNCHANGED <<quiet, got, term, reqs>>
(* a pre-vote changes nothing at the one who is asked *)
Passive(i, j) == /\ "prevote-passive" \in Drop /\ <<i, j>> \in reqs /\ term' = [term EXCEPT ![j] = 2]
                 /\ UNCHANGED <<quiet, got, reqs, reps>>
Count(i, j) == /\ quiet[i] /\ <<i, j>> \in reps /\ got' = [got EXCEPT ![i] = @ \cup {j}]
               /\ term' = IF Quorum(got[i] \cup {j}) THEN [term EXCEPT ![i] = 2] ELSE term
               /\ UNCHANGED <<quiet, reqs, reps>>
Next == \E i \in Server : Hear(i) \/ Timeout(i) \/ \E j \in Server : Answer(i, j) \/ Count(i, j) \/ Passive(i, j)
Spec == Init /\ [][Next]_vars
Undisturbed == 2 * Cardinality(Healthy) > Cardinality(Server) => \A i \in Server : term[i] = 1
(* and it gets out of the way when the leader is gone: some server can raise its term *)
Stuck == \A i \in Server : term[i] = 1
=============================================================================
