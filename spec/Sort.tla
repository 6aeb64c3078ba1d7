-------------------------------- MODULE Sort ---------------------------------
(* Sorting part of a sequence by a strict weak ordering (property C23).         *)
(* Elements are <<key, tag>>.                                                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLE sorted \* number of sorted ranges
vars == <<sorted>>
Init == sorted = 0
\* strict weak orderings
Before(o, a, b) == CASE o = "less" -> a[1] < b[1]
                     [] o = "greater" -> a[1] > b[1]
                     [] o = "mod" -> a[1] % 10 < b[1] % 10
                     [] o = "pair" -> a[1] < b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
                     [] o = "none" -> FALSE
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* without repetition, comparing the sets will do
Permutation(s, t) == Len(s) = Len(t) /\ IF Cardinality(ToSet(s)) = Len(s) THEN ToSet(s) = ToSet(t) ELSE \A x \in ToSet(s) \cup ToSet(t) : Count(s, x) = Count(t, x)
\* for a strict weak ordering, neighbours in order means all in order
Ordered(o, s) == \A i \in 1..(Len(s) - 1) : ~Before(o, s[i + 1], s[i])
OrderedAll(o, s) == \A i, j \in 1..Len(s) : i < j => ~Before(o, s[j], s[i])
Part(s, a, b) == SubSeq(s, a + 1, b)
Sorted(o, s, t, a, b) == /\ Len(s) = Len(t) /\ Part(s, 0, a) = Part(t, 0, a) /\ Part(s, b, Len(s)) = Part(t, b, Len(t))
                         /\ Permutation(Part(s, a, b), Part(t, a, b)) /\ Ordered(o, Part(t, a, b))
-----------------------------------------------------------------------------
Step(e) ==
  \/ e.op = "reset" /\ sorted' = 0
  \/ e.op = "sort" /\ sorted' = sorted + 1 /\ Sorted(e.o, e.before, e.after, e.from, e.to) = TRUE
=============================================================================
