-------------------------------- MODULE Linq ---------------------------------
(* Query pipelines over collections of records <<k, v>> (property C24).          *)
(* A group is <<key, records>>.  Ordering leaves the order of equal keys open,  *)
(* so the meaning of a pipeline is a set of collections.                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLE done
vars == <<done>>
Init == done = 0
SumV(s) == FoldLeft(LAMBDA a, x : a + x[2], 0, s)
\* functions given to the steps, by name; i counts from zero
Fun(f, x, i) == CASE f = "inc" -> <<x[1], x[2] + 1>>
                  [] f = "half" -> <<x[1], x[2] \div 2>>
                  [] f = "swap" -> <<x[2], x[1]>>
                  [] f = "index" -> <<x[1], (x[2] * 10) + i>>
                  [] f = "position" -> <<i, x[2]>>
                  [] f = "key" -> <<x[1], x[1]>>
                  [] f = "sum" -> <<x[1], SumV(x[2])>>     \* from here on for groups
                  [] f = "count" -> <<x[1], Len(x[2])>>
                  [] f = "first" -> <<x[2][1][1] + i, x[2][1][2]>>
Pred(p, x) == CASE p = "even" -> x[2] % 2 = 0
                [] p = "small" -> x[1] < 2
                [] p = "all" -> TRUE
                [] p = "nothing" -> FALSE
                [] p = "several" -> Len(x[2]) > 1         \* groups
                [] p = "odd_key" -> x[1] % 2 = 1
Key(f, x) == IF f \in {"k", "kref"} THEN x[1] ELSE IF f = "v" THEN x[2] ELSE x[2] % 3
Keys(f, s) == {Key(f, s[i]) : i \in 1..Len(s)}
Group(f, s) == LET ks == SetToSortSeq(Keys(f, s), <) IN
               [j \in 1..Len(ks) |-> <<ks[j], SelectSeq(s, LAMBDA x : Key(f, x) = ks[j])>>]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Permutation(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) \cup ToSet(t) : Count(s, x) = Count(t, x)
Sorted(f, s) == \A i \in 1..(Len(s) - 1) : Key(f, s[i]) <= Key(f, s[i + 1])
\* all ways to order s
RECURSIVE Orders(_, _)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Orders(f, s) == IF s = <<>> THEN {<<>>}
                ELSE UNION {{<<s[i]>> \o r : r \in Orders(f, Without(s, i))} :
                            i \in {j \in 1..Len(s) : \A l \in 1..Len(s) : Key(f, s[j]) <= Key(f, s[l])}}
Apply(st, s) == CASE st[1] = "select" -> {[i \in 1..Len(s) |-> Fun(st[2], s[i], i - 1)]}
                  [] st[1] = "where" -> {SelectSeq(s, LAMBDA x : Pred(st[2], x))}
                  [] st[1] = "group" -> {Group(st[2], s)}
                  [] st[1] = "order" -> Orders(st[2], s)
RECURSIVE Meaning(_, _)
Meaning(steps, s) == IF steps = <<>> THEN {s} ELSE UNION {Apply(steps[Len(steps)], t) : t \in Meaning(SubSeq(steps, 1, Len(steps) - 1), s)}
\* whether r is a result; a final ordering is compared without enumerating
IsResult(steps, s, r) ==
  IF steps # <<>> /\ steps[Len(steps)][1] = "order"
  THEN \E t \in Meaning(SubSeq(steps, 1, Len(steps) - 1), s) : Permutation(t, r) /\ Sorted(steps[Len(steps)][2], r)
  ELSE r \in Meaning(steps, s)
-----------------------------------------------------------------------------
Step(e) ==
  \/ e.op = "reset" /\ done' = 0
  \/ /\ e.op = "query" /\ done' = done + 1
     /\ IsResult(e.steps, e.source, e.result) = TRUE
     /\ (e.borrowed => e.after = e.source) = TRUE
=============================================================================
