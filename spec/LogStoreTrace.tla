--------------------------- MODULE LogStoreTrace ---------------------------
(* Checks records of the real fs_log_store (harness/logstore.cpp): each one starts from an observed pair of stores,
   applies operations of LogStore and ends in an observed pair, which must show exactly what the specification has. *)
EXTENDS LogStore, Json, IOUtils
CONSTANT Judge      \* "all", "reopen", "pack"
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLE k

FromObs(o) == [start |-> o.start, log |-> o.e]
\* what an observation of store s must be; ranges as recorded
Shows(s, o) ==
  /\ o.start = s.start /\ o.next = NextOf(s)
  /\ IF s.log = <<>> THEN o.last[1] = 0 ELSE o.last = LastOf(s)      \* the dummy entry of an empty store has term zero
  /\ o.e = s.log
  /\ Len(o.t) = Len(s.log) /\ \A i \in 1..Len(o.t) : o.t[i] = s.log[i][1]
  /\ \A i \in 1..Len(o.r) : o.r[i][3] = Range(s, o.r[i][1], o.r[i][2])
  /\ o.x = <<"null", "throw", "throw", "throw", "throw">>

\* one operation on the pair st; <<ok, st'>>, ok says that the recorded outcome is the right one
Do(st, op) ==
  LET s == st[op.s]
      upd(t) == [st EXCEPT ![op.s] = t]
  IN CASE op.o = "A" -> <<op.res = "ok" /\ op.i = NextOf(s), upd(DoAppend(s, op.e))>>
       [] op.o = "W" -> IF WriteOk(s, op.i) THEN <<op.res = "ok", upd(DoWrite(s, op.i, op.e))>> ELSE <<op.res = "throw", st>>
       [] op.o = "C" -> IF CompactOk(s, op.i) THEN <<op.res = "ok", upd(DoCompact(s, op.i))>> ELSE <<op.res = "throw", st>>
       [] op.o = "F" -> IF ~CompactOk(s, op.i) THEN <<op.res = "throw", st>>
                        ELSE IF op.res = "ok" THEN <<TRUE, upd(DoCompact(s, op.i))>> ELSE <<op.res = "false", st>>
       [] op.o \in {"O", "K"} -> <<op.res = "ok", st>>
       [] op.o = "P" -> LET d == st[3 - op.s]  p == PackOf(s, op.i, op.n)
                        IN IF ~PackOk(s, op.i) THEN <<op.res = "throw", st>>
                           ELSE IF p = <<>> THEN <<op.res = "empty", st>>
                           ELSE IF ~ApplyOk(d, op.i) THEN <<op.res = "skip", st>>
                           ELSE <<op.res = "ok", [st EXCEPT ![3 - op.s] = DoApply(d, op.i, p)]>>
RECURSIVE Fold(_, _, _)
Fold(st, ops, i) == IF i > Len(ops) THEN <<TRUE, st>>
                    ELSE LET r == Do(st, ops[i]) IN IF r[1] THEN Fold(r[2], ops, i + 1) ELSE <<FALSE, st>>

Start(r) == IF Len(r.pre) = 0 THEN <<Empty, Empty>> ELSE <<FromObs(r.pre[1]), FromObs(r.pre[2])>>
Has(r, S) == \E i \in 1..Len(r.ops) : r.ops[i].o \in S
Judged(r) == CASE Judge = "all" -> TRUE
               [] Judge = "reopen" -> Has(r, {"O", "K"})
               [] Judge = "pack" -> Has(r, {"P"})
StepOk(r) == Judged(r) => LET f == Fold(Start(r), r.ops, 1)
                          IN f[1] /\ Shows(f[2][1], r.post[1]) /\ Shows(f[2][2], r.post[2])

\* reads of existing entries while another thread appends; indices relative to the start
ConcOk(r) == IF "read" \in DOMAIN r
             THEN IF r.read.k = "t" THEN r.read.v = r.conc[r.read.i][1]
                  ELSE r.read.v = SubSeq(r.conc, r.read.i, r.read.j - 1)
             ELSE Shows([start |-> r.lo, log |-> r.conc], r.fin)
Ok(r) == IF "conc" \in DOMAIN r THEN (Judge = "all" => ConcOk(r)) ELSE StepOk(r)

Init == k = 1
Next == k <= N /\ Ok(Recs[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
\* TLC reports the first record that does not conform as the deadlocked state
Done == k > N
NotStuck == k <= N => Ok(Recs[k])
=============================================================================
