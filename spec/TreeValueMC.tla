----------------------------- MODULE TreeValueMC -----------------------------
(* Trees as linked nodes in a heap, copied deeply, against trees as values.     *)
EXTENDS TreeValue, FiniteSets
CONSTANTS MaxNodes, Depth
VARIABLES heap,  \* node -> [v, kids: sequence of nodes]
          root,  \* slot -> node
          last
S == <<slot, heap, root, last>>
MCSlots == {0, 1}
RECURSIVE Abs(_, _), Reach(_, _)
Abs(h, n) == <<h[n].v, [i \in 1..Len(h[n].kids) |-> Abs(h, h[n].kids[i])]>>
Reach(h, n) == {n} \cup UNION {Reach(h, h[n].kids[i]) : i \in 1..Len(h[n].kids)}
Fresh(h) == CHOOSE k \in 0..99 : k \notin DOMAIN h /\ \A j \in 0..(k - 1) : j \in DOMAIN h
\* deep copy: the heap with the copy, and its node
RECURSIVE Clone(_, _), CloneAll(_, _, _)
Clone(h, n) == LET k == Fresh(h)
                   c == CloneAll([x \in DOMAIN h \cup {k} |-> IF x = k THEN [v |-> h[n].v, kids |-> <<>>] ELSE h[x]], h[n].kids, 1)
               IN [h |-> [c.h EXCEPT ![k].kids = c.kids], n |-> k]
CloneAll(h, kids, i) == IF i > Len(kids) THEN [h |-> h, kids |-> <<>>]
                        ELSE LET c == Clone(h, kids[i]) r == CloneAll(c.h, kids, i + 1) IN [h |-> r.h, kids |-> <<c.n>> \o r.kids]
\* what is not reachable is freed
Live(h, r) == LET l == UNION {Reach(h, r[s]) : s \in MCSlots} IN [n \in l |-> h[n]]
RECURSIVE Find(_, _, _)
Find(h, n, p) == IF p = <<>> THEN n ELSE Find(h, h[n].kids[Head(p) + 1], Tail(p))
Paths(s) == LET o == Order(<<slot[s]>>) IN {Tail(o[k].path) : k \in 1..Len(o)}
RECURSIVE PathText(_)
PathText(p) == IF p = <<>> THEN "" ELSE "." \o ToString(Head(p)) \o PathText(Tail(p))
PT(p) == IF p = <<>> THEN "-" ELSE ToString(Head(p)) \o PathText(Tail(p))
T(x) == ToString(x)
Nodes == Cardinality(DOMAIN heap)
MCInit == /\ Init /\ heap = [n \in MCSlots |-> [v |-> -1, kids |-> <<>>]] /\ root = [s \in MCSlots |-> s] /\ last = ""
MCNext ==
  \E s \in MCSlots :
    LET a == 1 - s IN
    \/ /\ LET c == Clone(heap, root[a]) r == [root EXCEPT ![s] = c.n] IN root' = r /\ heap' = Live(c.h, r)
       /\ Becomes(s, slot[a]) /\ \E w \in {"cc", "ca"} : last' = w \o " " \o T(s) \o " " \o T(a)
    \/ /\ LET k == Fresh(heap)
              h == [x \in DOMAIN heap \cup {k} |-> IF x = k THEN [v |-> -1, kids |-> <<>>] ELSE heap[x]]
              r == [root EXCEPT ![s] = root[a], ![a] = k] IN root' = r /\ heap' = Live(h, r)
       /\ Move(s, a) /\ \E w \in {"mc", "ma"} : last' = w \o " " \o T(s) \o " " \o T(a)
    \/ \E p \in Paths(s), v \in {1, 2} :
         /\ heap' = [heap EXCEPT ![Find(heap, root[s], p)].v = v] /\ UNCHANGED root
         /\ Becomes(s, WithValue(s, p, v)) /\ last' = "set " \o T(s) \o " " \o PT(p) \o " " \o T(v)
    \/ \E p \in Paths(s), b \in MCSlots :
         /\ Nodes < MaxNodes
         /\ LET c == Clone(heap, root[b]) n == Find(heap, root[s], p) IN heap' = [c.h EXCEPT ![n].kids = Append(@, c.n)] /\ UNCHANGED root
         /\ Becomes(s, WithChild(s, p, slot[b])) /\ last' = "add " \o T(s) \o " " \o PT(p) \o " " \o T(b)
    \/ \E p \in Paths(s) \ {<<>>} :
         /\ LET n == Find(heap, root[s], SubSeq(p, 1, Len(p) - 1)) k == p[Len(p)] + 1
                h == [heap EXCEPT ![n].kids = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))] IN heap' = Live(h, root) /\ UNCHANGED root
         /\ Becomes(s, Without(s, p)) /\ last' = "del " \o T(s) \o " " \o PT(p)
    \/ \E p \in Paths(s), q \in Paths(s) :
         /\ LET c == Clone(heap, Find(heap, root[s], q)) n == Find(heap, root[s], p)
                h == [c.h EXCEPT ![n].v = c.h[c.n].v, ![n].kids = c.h[c.n].kids] IN heap' = Live(h, root) /\ UNCHANGED root
         /\ Becomes(s, AssignC(s, p, q)) /\ last' = "asg " \o T(s) \o " " \o PT(p) \o " " \o PT(q)
    \/ \E p \in Paths(s), q \in Paths(s) :
         /\ ~IsPrefix(q, p)
         /\ LET n == Find(heap, root[s], p) m == Find(heap, root[s], q)
                h == [[heap EXCEPT ![m] = [v |-> -1, kids |-> <<>>]] EXCEPT ![n] = heap[m]] IN heap' = Live(h, root) /\ UNCHANGED root
         /\ Becomes(s, AssignM(s, p, q)) /\ last' = "asm " \o T(s) \o " " \o PT(p) \o " " \o PT(q)
    \/ s = 0 /\ UNCHANGED <<slot, heap, root>> /\ last' = "eq 0 - 1 -"
MCSpec == MCInit /\ [][MCNext]_S
Bound == Nodes <= MaxNodes /\ TLCGet("level") <= Depth
\* the heap represents the values, and no node belongs to two trees or to two places of one
Refines == \A s \in MCSlots : Abs(heap, root[s]) = slot[s]
Disjoint == /\ Reach(heap, root[0]) \cap Reach(heap, root[1]) = {}
            /\ \A n \in DOMAIN heap : Cardinality({x \in (DOMAIN heap) \X (1..MaxNodes) :
                 x[2] <= Len(heap[x[1]].kids) /\ heap[x[1]].kids[x[2]] = n}) <= 1
Equality == EqT(slot[0], slot[1]) = (slot[0] = slot[1])
=============================================================================
