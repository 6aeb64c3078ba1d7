----------------------------- MODULE Containers ------------------------------
(* Container helpers (property C30): containment, flipping of pairs and maps,   *)
(* steps of iterators, end pointers, offset index sequences.                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLE calls
vars == <<calls>>
Init == calls = 0
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
HasKey(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Swapped(p) == <<p[2], p[1]>>
Precedes(o, a, b) == IF o = "less" THEN a < b ELSE a > b
\* m: entries <<key, value>> of a map with distinct keys; r: entries of the flipped one in its order o
Flipped(m, r, o) ==
  /\ \A i \in 1..(Len(r) - 1) : Precedes(o, r[i][1], r[i + 1][1])
  /\ {r[i][1] : i \in 1..Len(r)} = {m[i][2] : i \in 1..Len(m)}
  /\ \A i \in 1..Len(r) : \E j \in 1..Len(m) : Swapped(m[j]) = r[i]
\* numbers as bytes, least significant first: x + y = z
RECURSIVE Sum(_, _, _, _)
Sum(x, y, i, c) == IF i > Len(x) THEN <<>> ELSE LET s == (x[i] + y[i] + c) IN <<s % 256>> \o Sum(x, y, i + 1, s \div 256)
-----------------------------------------------------------------------------
Count == calls' = calls + 1
Step(e) ==
  \/ e.op = "reset" /\ calls' = 0
  \/ e.op = "contains" /\ Count /\ e.r = (Has(e.s, e.x) = TRUE)
  \/ e.op = "contains_key" /\ Count /\ e.r = (HasKey(e.m, e.x) = TRUE)
  \/ e.op = "flip_pair" /\ Count /\ e.r = Swapped(e.p)
  \/ e.op = "flip_map" /\ Count /\ (Flipped(e.m, e.r, e.o) /\ e.kept = TRUE) = TRUE
  \/ e.op = "next" /\ Count /\ e.to = Sum(e.from, e.n, 1, 0) /\ e.kept = TRUE
  \/ e.op = "prev" /\ Count /\ e.from = Sum(e.to, e.n, 1, 0) /\ e.kept = TRUE
  \/ e.op = "end_pointer" /\ Count /\ e.r = e.size
  \/ e.op = "offset" /\ Count /\ e.r = [i \in 1..Len(e.s) |-> e.s[i] + e.o]
=============================================================================
