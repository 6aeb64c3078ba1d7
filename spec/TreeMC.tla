------------------------------- MODULE TreeMC --------------------------------
(* The stack algorithm of the traversal against pre-order, for every forest of  *)
(* up to MaxNodes nodes, and edits through one iterator.                        *)
EXTENDS Tree, FiniteSets
CONSTANTS MaxNodes, MaxEdits, MaxSize
VARIABLES edits, last
S == <<vars, edits, last>>
\* algorithm: children of the node at a path, number of its siblings
Kids(f, p) == IF p = <<>> THEN f ELSE At(f, p)[2]
RECURSIVE Up(_, _), Down(_, _)
\* while at the end of an inner list go to the parent's next sibling
Up(f, p) == IF Len(p) > 1 /\ p[Len(p)] = Len(Kids(f, Front(p))) THEN Up(f, NextSib(Front(p))) ELSE p
NextPath(f, p) == IF Kids(f, p) # <<>> THEN Append(p, 0) ELSE Up(f, NextSib(p))
Down(f, p) == LET q == [p EXCEPT ![Len(p)] = @ - 1] IN
              IF Kids(f, q) # <<>> THEN Down(f, Append(q, Len(Kids(f, q)))) ELSE q
PrevPath(f, p) == IF p[Len(p)] = 0 THEN Front(p) ELSE Down(f, p)

MCInit == /\ \E n \in 0..MaxNodes : \E s \in Shapes(n) :
               forest = NumF(s, 1) /\ order = Order(NumF(s, 1)) /\ last = "forest v [" \o TextF(NumF(s, 1)) \o "]"
          /\ it = None /\ edits = 0
Sub == {<<50, <<>>>>, <<60, <<<<61, <<>>>>, <<62, <<>>>>>>>>}
E1 == /\ edits < MaxEdits /\ edits' = edits + 1 /\ N <= MaxSize
MCNext ==
  \/ it[0] = 0 /\ (it' = [it EXCEPT ![0] = 1]) /\ last' = "begin 0" /\ UNCHANGED <<forest, order, edits>>
  \/ it[0] # 0 /\ it[0] <= N /\ Moved(0, 1) /\ last' = "inc 0" /\ UNCHANGED edits
  \/ it[0] > 1 /\ Moved(0, -1) /\ last' = "dec 0" /\ UNCHANGED edits
  \/ it[0] # 0 /\ E1 /\ \E t \in Sub : Insert(0, t) /\ last' = "ins 0 " \o TextT(t)
  \/ it[0] # 0 /\ it[0] <= N /\ E1 /\ \E t \in Sub : InsertAfter(0, t) /\ last' = "insa 0 " \o TextT(t)
  \/ it[0] # 0 /\ it[0] <= N /\ E1 /\ Erase(0) /\ last' = "era 0"
MCSpec == MCInit /\ [][MCNext]_S
PathIn(f, o, k) == IF k <= Len(o) THEN o[k].path ELSE <<Len(f)>>
PathAt(k) == PathIn(forest, order, k)
\* the algorithm follows pre-order, forwards and backwards
Follows == \A k \in 1..N : NextPath(forest, PathAt(k)) = PathAt(k + 1) /\ PrevPath(forest, PathAt(k + 1)) = PathAt(k)
Sound == /\ \A k \in 1..N : Valid(forest, order[k].path) /\ At(forest, order[k].path)[1] = order[k].v
         /\ N = FoldLeft(LAMBDA a, t : a + Size(t), 0, forest)
         /\ \A j, k \in 1..N : order[j].path = order[k].path => j = k
\* an erasure leads to where the erased node's position continues: the algorithm gives the same as the definition
EraseFollows == [][(last' = "era 0") =>
                     LET p == order[it[0]].path IN PathIn(forest', order', it'[0]) = Up(forest', p)]_S
\* edits add or remove one contiguous block of the sequence of nodes, nothing else
Vals(o) == [k \in 1..Len(o) |-> o[k].v]
Local == [][(edits' > edits) =>
     LET a == Vals(order) b == Vals(order') k == it'[0] d == Len(b) - Len(a) IN
     IF d > 0 THEN SubSeq(b, 1, k - 1) = SubSeq(a, 1, k - 1) /\ SubSeq(b, k + d, Len(b)) = SubSeq(a, k, Len(a))
     ELSE SubSeq(b, 1, k - 1) = SubSeq(a, 1, k - 1) /\ SubSeq(b, k, Len(b)) = SubSeq(a, k - d, Len(a))]_S
=============================================================================
