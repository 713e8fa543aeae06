------------------------------- MODULE Logger -------------------------------
(* Contract of the file logger, as a monitor. log/logd: a thread logs a line (call, return) at a level; stop/stopd: the
   service is stopped; file: the lines of the file with their level, read back when it was stopped (final = 0) or when
   everything is gone (final = 1). level: the configured level of each logger. *)
EXTENDS Integers, Sequences, FiniteSets
Names == <<"dbug", "info", "warn", "errr">>
Fresh(level) == [level |-> level, lines |-> <<>>, open |-> {}, stop |-> FALSE]
Text(x) == <<Names[x.l + 1], x.s>>
Enabled(s, x) == x.l >= s.level[x.f + 1]
\* lines[i] = [t, f (logger), l, s, done (returned before the stop)]
MarkDone(s, t) ==      \* the thread's last line
  LET i == CHOOSE i \in 1..Len(s.lines) : s.lines[i].t = t /\ \A j \in 1..Len(s.lines) : s.lines[j].t = t => j <= i
  IN [s EXCEPT !.lines[i].done = TRUE]
Expected(s, f) == SelectSeq(s.lines, LAMBDA x : x.f = f /\ Enabled(s, x))
Pos(lines, w) == {i \in 1..Len(lines) : lines[i] = w}
FileOk(s, f) ==
  LET ex == Expected(s, f.f)
      must == IF f.final = 1 THEN 1..Len(ex) ELSE {i \in 1..Len(ex) : ex[i].done}
  IN /\ \A i \in must : Cardinality(Pos(f.lines, Text(ex[i]))) = 1                            \* exactly once, complete
     /\ \A k \in 1..Len(f.lines) : \E i \in 1..Len(ex) : f.lines[k] = Text(ex[i])             \* and nothing else
     /\ \A k \in 1..Len(f.lines) : Cardinality(Pos(f.lines, f.lines[k])) = 1
     /\ \A i, j \in must : (i < j /\ ex[i].t = ex[j].t) =>                                    \* in the order of the thread
          \A p \in Pos(f.lines, Text(ex[i])), q \in Pos(f.lines, Text(ex[j])) : p < q
Allowed(s, e) == CASE e.e \in {"log", "logd", "stop", "stopd", "end"} -> TRUE
                   [] e.e = "file" -> FileOk(s, e)
                   [] OTHER -> FALSE
After(s, e) == CASE e.e = "log" -> [s EXCEPT !.lines = Append(@, [t |-> e.t, f |-> e.f, l |-> e.l, s |-> e.s, done |-> FALSE])]
                 [] e.e = "logd" -> IF e.late = 0 THEN MarkDone(s, e.t) ELSE s
                 [] OTHER -> s
=============================================================================
