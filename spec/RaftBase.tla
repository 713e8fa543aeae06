------------------------------ MODULE RaftBase ------------------------------
(* Vocabulary shared by the model (Raft.tla) and by trace validation          *)
(* (RaftTrace.tla): what the rules of the protocol say about single steps.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Nil == -1
AppK == 1      \* log_val_type::app_log
ConfK == 2     \* log_val_type::conf

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Range(q) == {q[k] : k \in DOMAIN q}

LastT(lg) == IF lg = <<>> THEN 0 ELSE lg[Len(lg)].t
TermAt(lg, k) == IF k = 0 \/ k > Len(lg) THEN 0 ELSE lg[k].t
Prefix(q, k) == SubSeq(q, 1, Min(k, Len(q)))
IsPfx(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* a log is at least as up to date as lg *)
UpToDate(llt, lli, lg) == llt > LastT(lg) \/ (llt = LastT(lg) /\ lli >= Len(lg))

IsQuorum(S, Q) == 2 * Cardinality(S \cap Q) > Cardinality(Q)

(* -------- replication *)
PrevMatch(lg, lli, llt) == lli = 0 \/ (lli <= Len(lg) /\ lg[lli].t = llt)

FirstDiff(lg, lli, es) ==
  LET D == {n \in 1..Len(es) : lli + n > Len(lg) \/ lg[lli + n].t # es[n].t}
  IN  IF D = {} THEN Len(es) + 1 ELSE CHOOSE n \in D : \A m \in D : n <= m

(* what an accepted append leaves behind: only a conflicting suffix goes *)
Merge(lg, lli, es) ==
  LET d == FirstDiff(lg, lli, es)
  IN  IF d > Len(es) THEN lg ELSE SubSeq(lg, 1, lli + d - 1) \o SubSeq(es, d, Len(es))

(* the states between the storage operations of an append (a crash may leave any of them) *)
PartialMerge(lg, lg2, lli, es) ==
  \/ lg2 = lg
  \/ LET d == FirstDiff(lg, lli, es)
         m == Merge(lg, lli, es)
     IN  d <= Len(es) /\ Len(lg2) >= lli + d - 1 /\ IsPfx(lg2, m)

(* a follower may regard as committed what the leader announced and the request confirmed *)
FollowerBound(ci, lli, n) == Min(ci, lli + n)

(* entry k2 of the leader's log lg is on a quorum; only an entry of the leader's own term counts, except that what the
   only member of a cluster has stored is committed *)
Holders(logs, lg, k) == {j \in DOMAIN logs : Len(logs[j]) >= k /\ logs[j][k].t = lg[k].t}
CanCommit(logs, lg, trm, Q, k) ==
  \E k2 \in k..Len(lg) : (lg[k2].t = trm \/ Cardinality(Q) = 1) /\ IsQuorum(Holders(logs, lg, k2), Q)

(* -------- log matching between two logs *)
LogMatch(a, b) ==
  LET S == {k \in 1..Min(Len(a), Len(b)) : a[k].t = b[k].t}
  IN  S = {} \/ LET k == CHOOSE x \in S : \A y \in S : y <= x
                IN  SubSeq(a, 1, k) = SubSeq(b, 1, k)

(* -------- configurations *)
ConfIdx(lg, k) ==
  LET S == {j \in 1..Min(k, Len(lg)) : lg[j].k = ConfK}
  IN  IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

OneServerApart(A, B) == Cardinality((A \ B) \cup (B \ A)) = 1
=============================================================================
