-------------------------------- MODULE Stop --------------------------------
(* Contract of stopping, as a monitor. A server: apply: its state machine is given entry i; settled: everything up to
   entry i was committed a long time ago; destroy/destroyed: its destructor is called, returned; touch: it is used although it is
   gone; threads: n of its threads are left when nothing moves any more;
   timers: n of its election and heartbeat timers stay scheduled after that. The service: stop/stopped: stop() is called,
   returned; drop: its listeners are stopped and its clients released; workers: n of its threads are left. *)
EXTENDS Integers, Sequences
Fresh == [last |-> 0, down |-> "no", stop |-> 0, drop |-> FALSE]
Allowed(s, e) ==
  CASE e.e = "apply" -> s.down # "yes" /\ e.i > s.last
    [] e.e = "settled" -> s.down = "no" /\ s.last >= e.i
    [] e.e = "destroy" -> s.down = "no"
    [] e.e = "destroyed" -> s.down = "called"
    [] e.e = "threads" -> s.down = "yes" /\ e.n = 0
    [] e.e = "timers" -> s.down = "yes" /\ e.n = 0
    [] e.e = "stop" -> TRUE
    [] e.e = "stopped" -> s.stop > 0
    [] e.e = "drop" -> TRUE
    [] e.e = "workers" -> s.stop = 0 /\ s.drop => e.n = 0
    [] e.e = "end" -> s.down \in {"no", "yes"} /\ s.stop = 0
    [] OTHER -> FALSE
After(s, e) ==
  CASE e.e = "apply" -> [s EXCEPT !.last = e.i]
    [] e.e = "destroy" -> [s EXCEPT !.down = "called"]
    [] e.e = "destroyed" -> [s EXCEPT !.down = "yes"]
    [] e.e = "stop" -> [s EXCEPT !.stop = @ + 1]
    [] e.e = "stopped" -> [s EXCEPT !.stop = @ - 1]
    [] e.e = "drop" -> [s EXCEPT !.drop = TRUE]
    [] OTHER -> s
=============================================================================
