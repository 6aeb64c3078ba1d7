------------------------------- MODULE Forest --------------------------------
(* Trees are <<value, forest>>, forests are sequences of trees; a path is a      *)
(* sequence of indices counted from zero.                                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC
RECURSIVE PreT(_, _, _, _), PreF(_, _, _)
\* pre-order: [path, v, last, anc], anc: values from the root to the node itself
PreT(t, path, anc, last) ==
  LET a == Append(anc, t[1]) IN <<[path |-> path, v |-> t[1], last |-> last, anc |-> a]>> \o PreF(t[2], path, a)
PreF(f, path, anc) == FlattenSeq([i \in 1..Len(f) |-> PreT(f[i], Append(path, i - 1), anc, i = Len(f))])
Order(f) == PreF(f, <<>>, <<>>)
RECURSIVE Size(_)
Size(t) == 1 + FoldLeft(LAMBDA a, x : a + Size(x), 0, t[2])
\* the subtree at a path
RECURSIVE At(_, _), Valid(_, _), PutAt(_, _, _), EraseAt(_, _), SetAt(_, _, _)
At(f, p) == IF Len(p) = 1 THEN f[p[1] + 1] ELSE At(f[p[1] + 1][2], Tail(p))
Valid(f, p) == p # <<>> /\ p[1] < Len(f) /\ (Len(p) = 1 \/ Valid(f[p[1] + 1][2], Tail(p)))
\* t becomes the node at path p, what was there follows it
PutAt(f, p, t) == IF Len(p) = 1 THEN SubSeq(f, 1, p[1]) \o <<t>> \o SubSeq(f, p[1] + 1, Len(f))
                     ELSE [f EXCEPT ![p[1] + 1] = <<@[1], PutAt(@[2], Tail(p), t)>>]
EraseAt(f, p) == IF Len(p) = 1 THEN SubSeq(f, 1, p[1]) \o SubSeq(f, p[1] + 2, Len(f))
                 ELSE [f EXCEPT ![p[1] + 1] = <<@[1], EraseAt(@[2], Tail(p))>>]
\* the value at path p becomes v
SetAt(f, p, v) == IF Len(p) = 1 THEN [f EXCEPT ![p[1] + 1] = <<v, @[2]>>]
                  ELSE [f EXCEPT ![p[1] + 1] = <<@[1], SetAt(@[2], Tail(p), v)>>]
\* all forests with n nodes, all values v
RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {<<>>}
             ELSE UNION {{<<<<0, c>>>> \o r : c \in Shapes(k), r \in Shapes(n - 1 - k)} : k \in 0..(n - 1)}
\* nodes numbered in pre-order, from k
RECURSIVE NumF(_, _)
NumF(f, k) == IF f = <<>> THEN <<>>
              ELSE <<<<k, NumF(Head(f)[2], k + 1)>>>> \o NumF(Tail(f), k + Size(Head(f)))
\* text: 1(2,3(4)),5
RECURSIVE TextF(_), TextT(_)
TextT(t) == ToString(t[1]) \o (IF t[2] = <<>> THEN "" ELSE "(" \o TextF(t[2]) \o ")")
TextF(f) == IF f = <<>> THEN "" ELSE TextT(Head(f)) \o (IF Len(f) = 1 THEN "" ELSE "," \o TextF(Tail(f)))
=============================================================================
