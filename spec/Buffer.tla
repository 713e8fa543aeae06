------------------------------- MODULE Buffer -------------------------------
(* Contract of cornerstone::buffer, as a monitor over two buffers. A buffer has a size, a position and a memory; the
   memory is a set of tokens: what was put, where. Nothing is assumed about how a value is encoded except its size, so a
   value is determined where it was put whole; raw bytes are determined byte by byte. Raw bytes are written as runs: a
   run <<b, n>> is the n bytes b, b+1, ... modulo 256. e = [op, i (buffer), ..., r (1 done, 0 refused), p (positions
   of both buffers afterwards), z (their sizes)]. *)
EXTENDS Integers, Sequences, FiniteSets
Fresh(z) == [z |-> z, p |-> <<0, 0>>, m |-> <<{}, {}>>]
Len2(k, v) == CASE k = "byte" -> 1 [] k = "int" -> 4 [] k = "ulong" -> 8 [] k = "str" -> v.n + 1 [] OTHER -> 0
\* what remains of a token outside [a, b)
Outside(t, a, b) ==
  IF t.p + t.n <= a \/ b <= t.p THEN {t}
  ELSE IF t.k # "raw" THEN {}
  ELSE (IF t.p < a THEN {[t EXCEPT !.n = a - t.p]} ELSE {}) \cup
       (IF b < t.p + t.n THEN {[t EXCEPT !.p = b, !.n = t.p + t.n - b, !.v = (t.v + b - t.p) % 256]} ELSE {})
\* what a token has inside [a, b), moved to begin at c
Inside(t, a, b, c) ==
  IF t.p >= a /\ t.p + t.n <= b THEN {[t EXCEPT !.p = t.p - a + c]}
  ELSE IF t.k # "raw" \/ t.p + t.n <= a \/ b <= t.p THEN {}
  ELSE LET s == IF t.p > a THEN t.p ELSE a
           e == IF t.p + t.n < b THEN t.p + t.n ELSE b
       IN {[t EXCEPT !.p = s - a + c, !.n = e - s, !.v = (t.v + s - t.p) % 256]}
Erase(m, a, b) == IF a = b THEN m ELSE UNION {Outside(t, a, b) : t \in m}
Slice(m, a, b, c) == IF a = b THEN {} ELSE UNION {Inside(t, a, b, c) : t \in m}
RECURSIVE RunTokens(_, _)
RunTokens(runs, at) == IF runs = <<>> THEN {} ELSE {[p |-> at, n |-> runs[1][2], k |-> "raw", v |-> runs[1][1]]} \cup RunTokens(Tail(runs), at + runs[1][2])
RECURSIVE Total(_)
Total(runs) == IF runs = <<>> THEN 0 ELSE runs[1][2] + Total(Tail(runs))
\* the runs read from [a, a + n) agree with every raw byte the memory is sure of
ReadOk(m, a, n, runs) ==
  /\ Total(runs) = n
  /\ \A t \in Slice(m, a, a + n, 0), u \in RunTokens(runs, 0) :
       LET s == IF t.p > u.p THEN t.p ELSE u.p
       IN (t.k \in {"raw", "byte"} /\ s < t.p + t.n /\ s < u.p + u.n) =>
            ((IF t.k = "byte" THEN t.v ELSE t.v + s - t.p) % 256) = ((u.v + s - u.p) % 256)
At(m, p, k) == {t \in m : t.p = p /\ t.k = k}
Rest(s, i) == s.z[i] - s.p[i]
Same(s, e) == e.p = s.p /\ e.z = s.z                                   \* nothing moved
Moved(s, e, d) == e.p = [s.p EXCEPT ![e.i] = @ + d] /\ e.z = s.z         \* only this buffer's position moved, by d
Min(a, b) == IF a < b THEN a ELSE b
Other(i) == 3 - i
Allowed(s, e) ==
  LET i == e.i IN
  CASE e.op = "put" -> LET n == Len2(e.k, e.v) IN IF n <= Rest(s, i) THEN e.r = 1 /\ Moved(s, e, n) ELSE e.r = 0 /\ Same(s, e)
    [] e.op = "get" -> LET n == Len2(e.k, 0) IN
         IF n <= Rest(s, i) THEN e.r = 1 /\ Moved(s, e, n) /\ \A t \in At(s.m[i], s.p[i], e.k) : t.v = e.v
         ELSE e.r = 0 /\ Same(s, e)
    [] e.op = "getstr" ->
         LET T == At(s.m[i], s.p[i], "str") IN
         IF T # {} THEN \A t \in T : (t.v.n > 0 => e.r = 1 /\ e.v = t.v /\ Moved(s, e, t.n))
         ELSE IF Rest(s, i) <= 1 THEN e.r = 0 /\ Same(s, e)
         ELSE e.z = s.z /\ e.p[Other(i)] = s.p[Other(i)] /\ e.p[i] >= s.p[i] /\ e.p[i] <= s.z[i] /\ (e.r = 0 => Same(s, e))
    [] e.op \in {"putraw", "streamin"} ->                                                       \* streams do not move the position
         LET n == Total(e.v) IN IF n <= Rest(s, i) THEN e.r = 1 /\ (IF e.op = "putraw" THEN Moved(s, e, n) ELSE Same(s, e)) ELSE e.r = 0 /\ Same(s, e)
    [] e.op = "getraw" -> IF e.n <= Rest(s, i) THEN e.r = 1 /\ Moved(s, e, e.n) /\ ReadOk(s.m[i], s.p[i], e.n, e.v) ELSE e.r = 0 /\ Same(s, e)
    [] e.op = "streamout" -> e.r = 1 /\ Same(s, e) /\ ReadOk(s.m[i], s.p[i], Rest(s, i), e.v)
    [] e.op = "putbuf" -> LET n == Rest(s, Other(i)) IN IF n <= Rest(s, i) THEN e.r = 1 /\ Moved(s, e, n) ELSE e.r = 0 /\ Same(s, e)
    [] e.op = "getbuf" -> LET n == Rest(s, Other(i)) IN IF n <= Rest(s, i) THEN e.r = 1 /\ Moved(s, e, n) ELSE e.r = 0 /\ Same(s, e)
    [] e.op = "copy" -> e.r = 1 /\ e.p[i] = s.p[i] /\ e.z[i] = s.z[i] /\ e.p[Other(i)] = 0 /\ e.z[Other(i)] = Rest(s, i)
    [] e.op = "pos" -> e.r = 1 /\ e.z = s.z /\ e.p = [s.p EXCEPT ![i] = Min(e.n, s.z[i])]
    [] e.op = "alloc" -> e.r = 1 /\ e.p = [s.p EXCEPT ![i] = 0] /\ e.z = [s.z EXCEPT ![i] = e.n]
    [] OTHER -> FALSE
Write(s, e, i, at, n, toks) == [s EXCEPT !.p = e.p, !.z = e.z, !.m[i] = Erase(@, at, at + n) \cup toks]
After(s, e) ==
  LET i == e.i
      p == s.p[i]
      o == Other(i)
  IN IF e.r = 0 THEN s ELSE
     CASE e.op = "put" -> Write(s, e, i, p, Len2(e.k, e.v), {[p |-> p, n |-> Len2(e.k, e.v), k |-> e.k, v |-> e.v]})
       [] e.op \in {"putraw", "streamin"} -> Write(s, e, i, p, Total(e.v), RunTokens(e.v, p))
       [] e.op = "putbuf" -> Write(s, e, i, p, Rest(s, o), Slice(s.m[o], s.p[o], s.z[o], p))
       [] e.op = "getbuf" -> Write(s, e, o, s.p[o], Rest(s, o), Slice(s.m[i], p, p + Rest(s, o), s.p[o]))
       [] e.op = "copy" -> [s EXCEPT !.p = e.p, !.z = e.z, !.m[o] = Slice(s.m[i], p, s.z[i], 0)]
       [] e.op = "alloc" -> [s EXCEPT !.p = e.p, !.z = e.z, !.m[i] = {}]
       [] OTHER -> [s EXCEPT !.p = e.p, !.z = e.z]
\* serialization: [in, out, left]: what went in comes out, and all bytes of it are consumed
RoundTrip(r) == r.in = r.out /\ r.left = 0
=============================================================================
