------------------------------- MODULE Serial -------------------------------
(* Contract of calls that reach one server at the same time, as a monitor: what comes out (answers, saved votes and terms,
   log, what the state machine was told, roles taken, requests sent) is what comes out when the calls are made one after
   the other in some order; nothing wrong was sent on the way; every call returned. serial: the outcomes of all orders.
   out: the calls have returned and the server came to rest; end: the run is over. *)
EXTENDS Integers, Sequences
Fresh == [out |-> 0]
Allowed(serial, s, e) ==
  CASE e.e = "out" -> s.out = 0 /\ e.o.bad = "" /\ \E k \in DOMAIN serial : serial[k] = e.o
    [] e.e = "end" -> s.out = 1
    [] OTHER -> FALSE
After(s, e) == IF e.e = "out" THEN [s EXCEPT !.out = @ + 1] ELSE s
=============================================================================
