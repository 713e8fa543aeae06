------------------------------- MODULE Timer -------------------------------
(* Contract of the delayed task scheduler, as a monitor. Times are microseconds.
   sched/schedd: a task is given a delay (call, return); cancel/canceld; run: its execution begins; end: long after. *)
EXTENDS Integers, Sequences
NoTask == [due |-> -1, old |-> -1, busy |-> FALSE, opt |-> FALSE]
\* due: when the pending execution is due (-1: none); old: the one a call in progress is about to replace or cancel;
\* opt: both were due when the task ran during the call, so that either may have been the one
Fresh == [t \in 0..9 |-> NoTask]
Overdue(x, now) == x >= 0 /\ x <= now

Allowed(s, e) ==
  CASE e.e \in {"sched", "cancel"} -> ~s[e.t].busy
    [] e.e \in {"schedd", "canceld"} -> s[e.t].busy
    [] e.e = "run" -> Overdue(s[e.t].due, e.now) \/ Overdue(s[e.t].old, e.now)     \* not early, once per scheduling, not when cancelled
    [] e.e = "end" -> \A t \in DOMAIN s : s[t].due = -1 \/ s[t].opt                           \* everything that was due has run
    [] OTHER -> FALSE
After(s, e) ==
  CASE e.e = "sched" -> [s EXCEPT ![e.t] = [due |-> e.now + 1000 * e.d, old |-> s[e.t].due, busy |-> TRUE, opt |-> FALSE]]
    [] e.e = "cancel" -> [s EXCEPT ![e.t] = [due |-> -1, old |-> s[e.t].due, busy |-> TRUE, opt |-> FALSE]]
    [] e.e \in {"schedd", "canceld"} -> [s EXCEPT ![e.t].old = -1, ![e.t].busy = FALSE]
    [] e.e = "run" -> IF Overdue(s[e.t].due, e.now) /\ Overdue(s[e.t].old, e.now) THEN [s EXCEPT ![e.t].old = -1, ![e.t].opt = TRUE]
                       ELSE IF Overdue(s[e.t].due, e.now) THEN [s EXCEPT ![e.t].due = -1, ![e.t].opt = FALSE]
                       ELSE [s EXCEPT ![e.t].old = -1]
    [] OTHER -> s
=============================================================================
