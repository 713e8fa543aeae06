------------------------------- MODULE Async -------------------------------
(* Contract of an asynchronous result, as a monitor over the calls and returns seen from outside.
   Events: set/setd (result set: called, returned), reg/regd (handler registered), run (handler invoked),
   get/getd (wait for the result), end (all threads are through), stuck (some thread waits for ever), crash. *)
EXTENDS Integers, Sequences, FiniteSets
Fresh == [set |-> FALSE, setd |-> FALSE, val |-> <<"", 0>>, regs |-> {}, ran |-> {}, gets |-> {}, got |-> {}]

\* may event e happen in state s?
Allowed(s, e) ==
  CASE e.e = "set" -> ~s.set                                     \* a result is set once
    [] e.e = "setd" -> s.set
    [] e.e = "reg" -> e.t \notin s.regs
    [] e.e = "regd" -> e.t \in s.regs
    [] e.e = "run" -> s.set /\ <<e.v, e.x>> = s.val /\ e.t \in s.regs /\ e.t \notin s.ran     \* once, with what was set
    [] e.e = "get" -> e.t \notin s.gets
    [] e.e = "getd" -> s.set /\ <<e.v, e.x>> = s.val /\ e.t \in s.gets \ s.got                \* not before it was set
    [] e.e = "end" -> s.setd => (s.ran = s.regs /\ s.got = s.gets)                            \* delivered to everyone
    [] OTHER -> FALSE
After(s, e) ==
  CASE e.e = "set" -> [s EXCEPT !.set = TRUE, !.val = <<e.v, e.x>>]
    [] e.e = "setd" -> [s EXCEPT !.setd = TRUE]
    [] e.e = "reg" -> [s EXCEPT !.regs = @ \cup {e.t}]
    [] e.e = "run" -> [s EXCEPT !.ran = @ \cup {e.t}]
    [] e.e = "get" -> [s EXCEPT !.gets = @ \cup {e.t}]
    [] e.e = "getd" -> [s EXCEPT !.got = @ \cup {e.t}]
    [] OTHER -> s
=============================================================================
