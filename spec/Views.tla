-------------------------------- MODULE Views --------------------------------
(* Views on collections, enumerations and arrays indexed by them (C26).         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC
VARIABLES col,   \* three collections
          arr    \* array indexed by an enumeration
vars == <<col, arr>>
Cols == 0..2
Init == col = [c \in Cols |-> <<>>] /\ arr = <<>>
\* positions, in order, that a view shows
SkipPos(c, n) == [i \in 1..(Len(col[c]) - n) |-> i + n]
RevPos(c) == [i \in 1..Len(col[c]) |-> Len(col[c]) + 1 - i]
Least(cs) == Min({Len(col[cs[i]]) : i \in 1..Len(cs)})
Seen(c, pos) == [i \in 1..Len(pos) |-> col[c][pos[i]]]
Zipped(cs) == [i \in 1..Least(cs) |-> [j \in 1..Len(cs) |-> col[cs[j]][i]]]
Written(c, p, v) == [col EXCEPT ![c][p] = v]
-----------------------------------------------------------------------------
Same(e) == \A c \in Cols : e.cols[c + 1] = col'[c]
Step(e) ==
  \/ e.op = "reset" /\ col' = [c \in Cols |-> <<>>] /\ arr' = <<>>
  \/ e.op = "fill" /\ col' = [col EXCEPT ![e.c] = e.x] /\ UNCHANGED arr /\ Same(e) = TRUE
  \/ e.op = "skip" /\ UNCHANGED vars /\ e.seen = Seen(e.c, SkipPos(e.c, e.n)) /\ Same(e) = TRUE
  \/ e.op = "reverse" /\ UNCHANGED vars /\ e.seen = Seen(e.c, RevPos(e.c)) /\ Same(e) = TRUE
  \/ e.op = "zip" /\ UNCHANGED vars /\ e.seen = Zipped(e.cs) /\ Same(e) = TRUE
  \* write v to the i-th (from zero) element that the view shows
  \/ e.op = "skip_write" /\ col' = Written(e.c, SkipPos(e.c, e.n)[e.i + 1], e.v) /\ UNCHANGED arr /\ Same(e) = TRUE
  \/ e.op = "reverse_write" /\ col' = Written(e.c, RevPos(e.c)[e.i + 1], e.v) /\ UNCHANGED arr /\ Same(e) = TRUE
  \/ e.op = "zip_write" /\ col' = Written(e.cs[e.j + 1], e.i + 1, e.v) /\ UNCHANGED arr /\ Same(e) = TRUE
  \* enumerations: items are numbered from zero
  \/ e.op = "items" /\ UNCHANGED vars /\ e.size = e.n /\ e.seen = [i \in 1..e.n |-> i - 1] /\ e.back = [i \in 1..e.n |-> e.n - i]
  \/ e.op = "array" /\ arr' = e.x /\ UNCHANGED col /\ Len(e.x) = e.n
  \/ e.op = "array_write" /\ arr' = [arr EXCEPT ![e.i + 1] = e.v] /\ UNCHANGED col /\ e.x = arr'
  \/ /\ e.op = "array_read" /\ UNCHANGED vars
     /\ e.indexed = arr /\ e.plain = arr /\ e.pairs = [i \in 1..Len(arr) |-> <<arr[i], i - 1>>]
  \/ e.op = "array_fill" /\ arr' = [i \in 1..Len(arr) |-> (i - 1) + e.v] /\ UNCHANGED col /\ e.x = arr'
=============================================================================
