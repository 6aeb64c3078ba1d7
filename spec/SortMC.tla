------------------------------- MODULE SortMC --------------------------------
(* The three-way quick sort of the library as a recursive algorithm, against    *)
(* the specification, for all sequences of up to MaxLen keys.                   *)
EXTENDS Sort
CONSTANTS MaxLen, Keys
VARIABLES s, o
\* stable for what satisfies p, swaps for the rest: for i from the first that does not, swap with the boundary
RECURSIVE PartLoop(_, _, _, _, _)
SwapAt(t, i, j) == [t EXCEPT ![i] = t[j], ![j] = t[i]]
PartLoop(t, i, m, last, P) == IF i > last THEN [t |-> t, m |-> m]
                              ELSE IF t[i] \in P THEN PartLoop(SwapAt(t, i, m), i + 1, m + 1, last, P) ELSE PartLoop(t, i + 1, m, last, P)
\* P: the elements which satisfy the predicate
Partition(t, first, last, P) ==
  LET bad == {k \in first..last : t[k] \notin P} IN
  IF bad = {} THEN [t |-> t, m |-> last + 1]
  ELSE LET f == CHOOSE k \in bad : \A j \in bad : k <= j IN PartLoop(t, f + 1, f, last, P)
RECURSIVE Quick(_, _, _, _)
\* the longer part is sorted by another round of the loop, the shorter one by recursion; d: how deep the recursion gets
Quick(t, first, last, ord) ==
  IF last - first + 1 <= 1 THEN [t |-> t, d |-> 0]
  ELSE LET pivot == t[first + ((last - first + 1) \div 2)]
           p1 == Partition(t, first, last, {x \in ToSet(t) : Before(ord, x, pivot)})
           p2 == Partition(p1.t, p1.m, last, {x \in ToSet(t) : ~Before(ord, pivot, x)})
           leftShorter == p1.m - first < last + 1 - p2.m
           short == IF leftShorter THEN Quick(p2.t, first, p1.m - 1, ord) ELSE Quick(p2.t, p2.m, last, ord)
           long == IF leftShorter THEN Quick(short.t, p2.m, last, ord) ELSE Quick(short.t, first, p1.m - 1, ord)
       IN [t |-> long.t, d |-> IF short.d + 1 > long.d THEN short.d + 1 ELSE long.d]
MCInit == Init /\ o \in {"less", "greater", "mod", "pair", "none"} /\ s \in UNION {[1..k -> Keys] : k \in 0..MaxLen}
\* tags tell equal keys apart
Tagged == [i \in 1..Len(s) |-> <<s[i], i % 3>>]
MCSpec == MCInit /\ [][UNCHANGED <<sorted, s, o>>]_<<sorted, s, o>>
QuickSorts == LET t == Quick(Tagged, 1, Len(s), o).t IN Permutation(Tagged, t) /\ Ordered(o, t) /\ OrderedAll(o, t)
\* the recursion is logarithmically deep, whatever the order of the elements
Shallow == 2 ^ Quick(Tagged, 1, Len(s), o).d <= Len(s) + 1
=============================================================================
