---------------------------- MODULE LogStoreGen ----------------------------
(* Enumerates every history of Depth operations from a number of prepared stores, with all arguments that matter there
   (every index inside the log and one on either side, every pack range), for replay into the real store.
   Its invariants are the laws a user relies on, checked on the contract itself. *)
EXTENDS LogStore
CONSTANTS Depth, Sizes, Bufs
VARIABLES st, hist, left, n
vars == <<st, hist, left, n>>
E(m) == <<1 + m \div 3, m>>       \* payloads are told apart by their number

\* prepared stores: the operations that make them
Preps == {"", "A0 1;A0 2;A0 3;A0 1;", "A0 1;A0 3;A0 2;A0 0;A0 2;C0 2;A1 2;A1 1;A1 3;",
          "A0 2;A0 2;A0 1;W0 2 3;A0 1;A1 1;A1 1;A1 1;A1 2;A1 2;C1 1;"}
F(k, m) == [i \in 1..k |-> E(m + i - 1)]
PrepState(p) ==
  CASE p = "" -> <<Empty, Empty, 0>>
    [] p = "A0 1;A0 2;A0 3;A0 1;" -> <<[start |-> 1, log |-> F(4, 0)], Empty, 4>>
    [] p = "A0 1;A0 3;A0 2;A0 0;A0 2;C0 2;A1 2;A1 1;A1 3;" ->
         <<[start |-> 3, log |-> SubSeq(F(5, 0), 3, 5)], [start |-> 1, log |-> F(3, 5)], 8>>
    [] OTHER -> <<[start |-> 1, log |-> <<E(0), E(3), E(4)>>], [start |-> 2, log |-> SubSeq(F(5, 5), 2, 5)], 10>>

Init == \E p \in Preps : /\ hist = p /\ left = Depth
                         /\ st = <<PrepState(p)[1], PrepState(p)[2]>> /\ n = PrepState(p)[3]
Z(w) == IF w = 1 THEN "0" ELSE "1"
Log(op) == hist' = hist \o op \o ";" /\ left' = left - 1
Do(w, t) == st' = [st EXCEPT ![w] = t]

App(w) == \E k \in Sizes : Do(w, DoAppend(st[w], E(n))) /\ n' = n + 1 /\ Log("A" \o Z(w) \o " " \o ToString(k))
Wr(w) == \E i \in (st[w].start - 1)..(NextOf(st[w]) + 1), k \in Sizes :
           /\ Do(w, IF WriteOk(st[w], i) THEN DoWrite(st[w], i, E(n)) ELSE st[w]) /\ n' = n + 1
           /\ (k # CHOOSE x \in Sizes : TRUE) => (WriteOk(st[w], i) /\ i >= NextOf(st[w]) - 2)
           /\ Log("W" \o Z(w) \o " " \o ToString(i) \o " " \o ToString(k))
Cmp(w) == \E i \in (st[w].start - 1)..(NextOf(st[w]) + 1) :
           /\ Do(w, IF CompactOk(st[w], i) THEN DoCompact(st[w], i) ELSE st[w]) /\ UNCHANGED n
           /\ Log("C" \o Z(w) \o " " \o ToString(i))
CmpFail(w) == \E i \in {st[w].start, NextOf(st[w])}, k \in 1..2 :
           /\ UNCHANGED <<st, n>> /\ Log("F" \o Z(w) \o " " \o ToString(i) \o " " \o ToString(k))
Open(w) == \E b \in Bufs, o \in {"O", "K"} : UNCHANGED <<st, n>> /\ Log(o \o Z(w) \o " " \o b)
Pck(w) == \E i \in st[w].start..NextOf(st[w]), c \in 1..4 :
           LET p == PackOf(st[w], i, c)  d == st[3 - w]
           IN /\ i + c <= NextOf(st[w]) + 1
              /\ st' = IF p # <<>> /\ ApplyOk(d, i) THEN [st EXCEPT ![3 - w] = DoApply(d, i, p)] ELSE st
              /\ UNCHANGED n /\ Log("P" \o Z(w) \o " " \o ToString(i) \o " " \o ToString(c))
Next == left > 0 /\ \E w \in 1..2 : App(w) \/ Wr(w) \/ Cmp(w) \/ CmpFail(w) \/ Open(w) \/ Pck(w)
Spec == Init /\ [][Next]_vars

\* every complete history is printed once
Out == left = 0 => PrintT("H " \o hist)

\* ---- laws of the contract
WellFormed == \A w \in 1..2 : st[w].start >= 1
Laws == \A w \in 1..2 :
  /\ \A i \in st[w].start..NextOf(st[w]) :         \* an overwrite keeps what is before and drops what is after
       LET t == DoWrite(st[w], i, E(n)) IN NextOf(t) = i + 1 /\ Range(t, st[w].start, i) = Range(st[w], st[w].start, i)
  /\ \A i \in st[w].start..(NextOf(st[w]) + 1) :   \* a compaction keeps exactly the later entries
       LET t == DoCompact(st[w], i)
       IN t.start = i + 1 /\ (i < NextOf(st[w]) => t.log = Range(st[w], i + 1, NextOf(st[w])))
  /\ \A i \in st[w].start..NextOf(st[w]), c \in 1..3 :      \* a pack arrives as it left
       LET p == PackOf(st[w], i, c)  d == st[3 - w]
       IN ApplyOk(d, i) => Range(DoApply(d, i, p), i, i + c) = p /\ NextOf(DoApply(d, i, p)) = i + Len(p)
=============================================================================
