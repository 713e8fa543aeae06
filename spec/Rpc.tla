-------------------------------- MODULE Rpc --------------------------------
(* Contract of the transport, as a monitor. call: a request is sent (d: all its fields and entries); handle: a message
   handler gets a request; respond: it returns a response; nores: it fails; done/fail: the caller's handler runs.
   faults = 1: the peer is missing, refuses to answer or breaks the connection in this execution; heal: from here on it
   serves, so that a client is refused at most one more call, by what is left of its broken connection. *)
EXTENDS Integers, Sequences
Fresh(f) == [faults |-> f, healed |-> FALSE, fresh |-> {}, c |-> [x \in {} |-> 0]]
Known(s, id) == id \in DOMAIN s.c
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Allowed(s, e) ==
  CASE e.e = "call" -> ~Known(s, e.id)
    [] e.e = "handle" -> Known(s, e.id) /\ s.c[e.id].req = e.d /\ s.c[e.id].srv = "none"       \* unchanged, at most once
    [] e.e = "respond" -> Known(s, e.id) /\ s.c[e.id].srv = "handled"
    [] e.e = "nores" -> Known(s, e.id) /\ s.c[e.id].srv = "handled"
    [] e.e = "done" -> Known(s, e.id) /\ s.c[e.id].open /\ s.c[e.id].srv = "responded"
                       /\ s.c[e.id].res = e.d                                                  \* its own response, unchanged
    [] e.e = "fail" -> Known(s, e.id) /\ s.c[e.id].open /\ s.faults = 1 /\ e.d = ""            \* only if something is wrong
                       /\ s.c[e.id].cl \notin s.fresh
    [] e.e = "heal" -> s.faults = 1
    [] e.e = "end" -> \A id \in DOMAIN s.c : ~s.c[id].open                                     \* every call completes
    [] OTHER -> FALSE
After(s, e) ==
  CASE e.e = "call" -> [s EXCEPT !.c = Put(@, e.id, [cl |-> e.c, late |-> s.healed, req |-> e.d, srv |-> "none", open |-> TRUE, res |-> ""])]
    [] e.e = "handle" -> [s EXCEPT !.c[e.id].srv = "handled"]
    [] e.e = "nores" -> [s EXCEPT !.c[e.id].srv = "failed"]
    [] e.e = "respond" -> [s EXCEPT !.c[e.id].srv = "responded", !.c[e.id].res = e.d]
    [] e.e \in {"done", "fail"} -> [s EXCEPT !.c[e.id].open = FALSE,
                                           !.fresh = IF s.c[e.id].late THEN @ \cup {s.c[e.id].cl} ELSE @]
    [] e.e = "heal" -> [s EXCEPT !.healed = TRUE]
    [] OTHER -> s
=============================================================================
