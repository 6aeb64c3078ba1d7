-------------------------------- MODULE Tree ---------------------------------
(* Traversal of forests and edits through iterators (properties C19, C20).      *)
EXTENDS Forest
VARIABLES
  forest,
  order,   \* its nodes in pre-order
  it       \* positions of iterators: 1..n+1 (n+1 is the end), 0: none; numbers 4 and 5 are reverse iterators
vars == <<forest, order, it>>
Slots == 0..5
Rev(i) == i \in {4, 5}
N == Len(order)
None == [i \in Slots |-> 0]
Load(f) == forest' = f /\ order' = Order(f) /\ it' = None
Init == forest = <<>> /\ order = <<>> /\ it = None

\* pre-order position of a path
PosOf(o, p) == CHOOSE k \in DOMAIN o : o[k].path = p
\* where an edit through an iterator at position k takes place; the end is the end of the list of roots
PathOf(k) == IF k <= N THEN order[k].path ELSE <<Len(forest)>>
\* everything else becomes invalid, iterator i denotes position k
Edited(f, i, k) == forest' = f /\ order' = Order(f) /\ it' = [None EXCEPT ![i] = k]
Insert(i, t) == Edited(PutAt(forest, PathOf(it[i]), t), i, it[i])
NextSib(p) == [p EXCEPT ![Len(p)] = @ + 1]
InsertAfter(i, t) == LET p == order[it[i]].path IN Edited(PutAt(forest, NextSib(p), t), i, it[i] + Size(At(forest, p)))
Erase(i) == Edited(EraseAt(forest, order[it[i]].path), i, it[i])

Moved(i, d) == it' = [it EXCEPT ![i] = IF Rev(i) THEN @ - d ELSE @ + d] /\ UNCHANGED <<forest, order>>
\* position of the node an iterator denotes
Denotes(i) == IF Rev(i) THEN it[i] - 1 ELSE it[i]
-----------------------------------------------------------------------------
\* what is visible at iterator i afterwards
Look(e) == LET k == IF Rev(e.i) THEN it'[e.i] - 1 ELSE it'[e.i]
               o == order'
               atEnd == IF Rev(e.i) THEN k = 0 ELSE k = Len(o) + 1 IN
  /\ e.end = atEnd
  /\ (atEnd /\ ~Rev(e.i)) => ~e.last
  /\ ~atEnd => /\ e.v = o[k].v
               /\ ~Rev(e.i) => /\ e.index = o[k].path /\ e.depth = Len(o[k].path)
                               /\ e.last = o[k].last /\ e.levels = o[k].anc /\ e.beyond = "out_of_range"
Step(e) ==
  \/ e.op = "reset" /\ Load(<<>>)
  \/ e.op = "forest" /\ Load(e.f)
  \/ /\ e.op \in {"begin", "end"} /\ UNCHANGED <<forest, order>>
     /\ it' = [it EXCEPT ![e.i] = IF (e.op = "begin") = Rev(e.i) THEN N + 1 ELSE 1]
     /\ Look(e) = TRUE
  \/ e.op = "inc" /\ Moved(e.i, 1) /\ Look(e) = TRUE
  \/ e.op = "dec" /\ Moved(e.i, -1) /\ Look(e) = TRUE
  \/ e.op = "copy" /\ it' = [it EXCEPT ![e.i] = it[e.j]] /\ UNCHANGED <<forest, order>> /\ Look(e) = TRUE
  \/ /\ e.op = "make" /\ UNCHANGED <<forest, order>>
     /\ IF Valid(forest, e.path) THEN e.r = "ok" /\ it' = [it EXCEPT ![e.i] = PosOf(order, e.path)] /\ Look(e) = TRUE
        ELSE e.r = "out_of_range" /\ UNCHANGED it
  \/ e.op = "valid" /\ UNCHANGED vars /\ e.res = Valid(forest, e.path)
  \/ e.op = "access" /\ UNCHANGED vars /\ (Valid(forest, e.path) => (e.v = At(forest, e.path)[1])) = TRUE
  \/ /\ e.op = "compare" /\ UNCHANGED vars
     /\ LET a == it[e.i] b == it[e.j] IN
        (/\ e.eq = (a = b) /\ e.ne = (a # b)
         /\ e.ordered => (e.lt = (a < b) /\ e.gt = (a > b) /\ e.le = (a <= b) /\ e.ge = (a >= b))) = TRUE
  \/ /\ e.op = "walk" /\ UNCHANGED vars
     /\ e.fwd = [k \in 1..N |-> order[k].v]
     /\ e.bwd = Reverse([k \in 1..N |-> order[k].v])
     /\ e.paths = [k \in 1..N |-> order[k].path]
  \/ e.op = "insert" /\ Insert(e.i, e.t) /\ forest' = e.f /\ Look(e) = TRUE
  \/ e.op = "insert_after" /\ InsertAfter(e.i, e.t) /\ forest' = e.f /\ Look(e) = TRUE
  \/ e.op = "insert_node" /\ Insert(e.i, At(forest, order[it[e.j]].path)) /\ forest' = e.f /\ Look(e) = TRUE
  \/ e.op = "insert_node_after" /\ InsertAfter(e.i, At(forest, order[it[e.j]].path)) /\ forest' = e.f /\ Look(e) = TRUE
  \/ e.op = "erase" /\ Erase(e.i) /\ forest' = e.f /\ Look(e) = TRUE
  \/ /\ e.op = "write" /\ LET f == SetAt(forest, order[Denotes(e.i)].path, e.w) IN
        forest' = f /\ order' = Order(f) /\ UNCHANGED it
     /\ forest' = e.f /\ Look(e) = TRUE
=============================================================================
