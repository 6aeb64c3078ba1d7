------------------------------ MODULE TreeValue ------------------------------
(* Trees as values in four slots (property C21).  A slot moved from is given a   *)
(* default tree right afterwards.                                               *)
EXTENDS Forest
VARIABLE slot
vars == <<slot>>
Slots == 0..3
Default == <<-1, <<>>>>
Init == slot = [s \in Slots |-> Default]
\* equality as the recursive comparison it is
RECURSIVE EqT(_, _)
EqT(a, b) == a[1] = b[1] /\ Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : EqT(a[2][i], b[2][i])
Of(list) == [i \in 1..Len(list) |-> slot[list[i]]]
Has(s, p) == Valid(<<slot[s]>>, <<0>> \o p)
Node(s, p) == At(<<slot[s]>>, <<0>> \o p)
\* the tree in slot s with the value at p set, a child added to p, or the node at p (not the root) removed
WithValue(s, p, v) == SetAt(<<slot[s]>>, <<0>> \o p, v)[1]
WithChild(s, p, t) == PutAt(<<slot[s]>>, <<0>> \o p \o <<Len(Node(s, p)[2])>>, t)[1]
Without(s, p) == EraseAt(<<slot[s]>>, <<0>> \o p)[1]
\* the node at p, with all below it, replaced
SetTree(s, p, t) == IF p = <<>> THEN t ELSE PutAt(EraseAt(<<slot[s]>>, <<0>> \o p), <<0>> \o p, t)[1]
AssignC(s, p, q) == SetTree(s, p, Node(s, q))
\* what was moved from, if it still exists, is given a default tree right afterwards
AssignM(s, p, q) == IF IsPrefix(p, q) THEN AssignC(s, p, q)
                    ELSE LET r == AssignC(s, p, q) IN PutAt(EraseAt(<<r>>, <<0>> \o q), <<0>> \o q, Default)[1]
\* many children added to the node at p, or one of many levels
RECURSIVE Levels(_, _, _)
Levels(i, n, m) == IF i = n THEN <<>> ELSE <<<<i % m, Levels(i + 1, n, m)>>>>
WithMore(s, p, more) == LET t == Node(s, p) IN SetTree(s, p, <<t[1], t[2] \o more>>)
Becomes(s, t) == slot' = [slot EXCEPT ![s] = t]
Move(s, a) == slot' = [slot EXCEPT ![a] = Default, ![s] = slot[a]]
Swap(s, a) == slot' = [slot EXCEPT ![s] = slot[a], ![a] = slot[s]]
-----------------------------------------------------------------------------
Step(e) ==
  \/ e.op = "reset" /\ slot' = [s \in Slots |-> Default]
  \/ /\ e.op # "reset" /\ slot' = [s \in Slots |-> e.slots[s + 1]]
     /\ \/ e.op = "of_value" /\ Becomes(e.s, <<e.v, <<>>>>)
        \/ e.op = "of_value_children" /\ Becomes(e.s, <<e.v, Of(e.list)>>)
        \/ e.op = "of_children" /\ Becomes(e.s, <<-1, Of(e.list)>>)
        \/ e.op = "copy" /\ Becomes(e.s, slot[e.a])
        \/ e.op = "move" /\ Move(e.s, e.a)
        \/ e.op = "swap" /\ Swap(e.s, e.a)
        \/ e.op = "set" /\ Becomes(e.s, WithValue(e.s, e.path, e.v))
        \/ e.op = "add" /\ Becomes(e.s, WithChild(e.s, e.path, slot[e.a]))
        \/ e.op = "fan" /\ Becomes(e.s, WithMore(e.s, e.path, [i \in 1..e.n |-> <<(i - 1) % e.m, <<>>>>]))
        \/ e.op = "chain" /\ Becomes(e.s, WithMore(e.s, e.path, Levels(0, e.n, e.m)))
        \/ e.op = "remove" /\ Becomes(e.s, Without(e.s, e.path))
        \/ e.op = "graft" /\ Becomes(e.s, SetTree(e.s, e.path, slot[e.a]))
        \* assignment within one tree: the target may be above or below what is assigned (not below it when moving)
        \/ e.op = "assign" /\ Becomes(e.s, AssignC(e.s, e.p, e.q))
        \/ e.op = "assign_moved" /\ ~IsPrefix(e.q, e.p) /\ Becomes(e.s, AssignM(e.s, e.p, e.q))
        \/ e.op = "equal" /\ UNCHANGED slot /\ e.res = EqT(Node(e.s, e.p), Node(e.a, e.q))
        \/ e.op = "equal_value" /\ UNCHANGED slot /\ e.res = (slot[e.s][1] = e.v)
        \/ e.op = "find" /\ UNCHANGED slot
           /\ LET c == slot[e.s][2] IN e.res = (IF \E i \in 1..Len(c) : c[i][1] = e.v
                                               THEN (CHOOSE i \in 1..Len(c) : c[i][1] = e.v /\ \A j \in 1..(i - 1) : c[j][1] # e.v) - 1
                                               ELSE Len(c))
=============================================================================
