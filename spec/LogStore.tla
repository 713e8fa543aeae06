------------------------------ MODULE LogStore ------------------------------
(* The log store contract: an indexed log [start, log] with append, overwrite (drops what follows), compaction,
   reopening, and packs that carry a range of entries from one store to another.  Two stores. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NextOf(s) == s.start + Len(s.log)
Empty == [start |-> 1, log |-> <<>>]
LastOf(s) == s.log[Len(s.log)]
EntryAt(s, i) == s.log[i - s.start + 1]
Range(s, a, b) ==          \* entries [a, b) that exist
  IF a >= b \/ a >= NextOf(s) THEN <<>>
  ELSE SubSeq(s.log, a - s.start + 1, (IF b > NextOf(s) THEN NextOf(s) ELSE b) - s.start)

\* ---- operations; each yields the store afterwards
DoAppend(s, e) == [s EXCEPT !.log = Append(@, e)]
WriteOk(s, i) == i >= s.start /\ i <= NextOf(s)
DoWrite(s, i, e) == [s EXCEPT !.log = Append(SubSeq(@, 1, i - s.start), e)]
CompactOk(s, i) == i >= s.start
DoCompact(s, i) == IF i >= NextOf(s) - 1 THEN [start |-> i + 1, log |-> <<>>]
                   ELSE [start |-> i + 1, log |-> SubSeq(s.log, i - s.start + 2, Len(s.log))]
PackOk(s, i) == i >= s.start
PackOf(s, i, n) == Range(s, i, i + n)
ApplyOk(d, i) == i >= d.start /\ i <= NextOf(d)
DoApply(d, i, p) == [d EXCEPT !.log = SubSeq(@, 1, i - d.start) \o p]
=============================================================================
