------------------------------- MODULE Chains -------------------------------
(* Objects which own one another through utki::shared_ref or utki::unique_ref   *)
(* (properties C17, C18): every object has a slot "next" which holds at most    *)
(* one reference, and there are named references outside of objects ("roots").  *)
(* An object lives exactly as long as somebody who lives refers to it, also     *)
(* when the only path to what a reference is assigned goes through the object   *)
(* the reference releases by that assignment.                                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES
  root,   \* function from the names of occupied roots to objects
  next    \* function from living objects to the object in the slot, or 0
vars == <<root, next>>
\* what lives when exactly the roots r and the slots n hold references
RECURSIVE Reach(_, _)
Reach(S, n) == LET T == S \cup ({n[o] : o \in S} \ {0}) IN IF T = S THEN S ELSE Reach(T, n)
Living(r, n) == Reach({r[x] : x \in DOMAIN r}, n)
\* the state after everything nobody refers to was destroyed
Settle(r, n) == root' = r /\ next' = [o \in Living(r, n) |-> n[o]]
Set(r, x, o) == (x :> o) @@ r
Unset(r, x) == [y \in DOMAIN r \ {x} |-> r[y]]
Has(x) == x \in DOMAIN root
Slot(x) == next[root[x]]
-----------------------------------------------------------------------------
Make(x, o) == Settle(Set(root, x, o), (o :> 0) @@ next)
\* one more reference to the object / the same reference elsewhere
Assign(x, y) == Has(y) /\ Settle(Set(root, x, root[y]), next)
Move(x, y) == Has(y) /\ Settle(IF x = y THEN root ELSE Unset(Set(root, x, root[y]), y), next)
Swap(x, y) == Has(x) /\ Has(y) /\ Settle(Set(Set(root, x, root[y]), y, root[x]), next)
Drop(x) == Settle(Unset(root, x), next)
\* the slot of the object x refers to
Link(x, y) == Has(x) /\ Has(y) /\ Settle(root, [next EXCEPT ![root[x]] = root[y]])
LinkMove(x, y) == Has(x) /\ Has(y) /\ x # y /\ Settle(Unset(root, y), [next EXCEPT ![root[x]] = root[y]])
Cut(x) == Has(x) /\ Settle(root, [next EXCEPT ![root[x]] = 0])
\* the reference x becomes what is in the slot of the object it refers to: that object is released
Pop(x) == Has(x) /\ Slot(x) # 0 /\ Settle(Set(root, x, Slot(x)), next)
PopMove(x) == Has(x) /\ Slot(x) # 0 /\ Settle(Set(root, x, Slot(x)), [next EXCEPT ![root[x]] = 0])
\* the slot becomes what is in the slot of the object it refers to
Splice(x) == Has(x) /\ Slot(x) # 0 /\ next[Slot(x)] # 0 /\ Settle(root, [next EXCEPT ![root[x]] = next[Slot(x)]])
SpliceMove(x) == Has(x) /\ Slot(x) # 0 /\ next[Slot(x)] # 0
  /\ Settle(root, [next EXCEPT ![root[x]] = next[Slot(x)], ![Slot(x)] = 0])
\* the reference in the slot of x goes to the root y
Take(x, y) == Has(x) /\ Slot(x) # 0 /\ Settle(Set(root, y, Slot(x)), [next EXCEPT ![root[x]] = 0])
\* no object may refer to itself, even through others: then it would live for ever
Acyclic == \A o \in DOMAIN next : next[o] = 0 \/ o \notin Reach({next[o]}, next)
Init == root = <<>> /\ next = <<>>
-----------------------------------------------------------------------------
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
Seen(e) == /\ Pairs(e.roots) = {<<x, root'[x]>> : x \in DOMAIN root'}
           /\ Pairs(e.nexts) = {<<o, next'[o]>> : o \in DOMAIN next'}
           /\ Cardinality(Pairs(e.nexts)) = Len(e.nexts)
           /\ Cardinality({e.dead[i] : i \in DOMAIN e.dead}) = Len(e.dead)
           /\ {e.dead[i] : i \in DOMAIN e.dead} = DOMAIN next \ DOMAIN next'
Step(e) ==
  \/ e.op = "reset" /\ root' = <<>> /\ next' = <<>>
  \/ e.op = "make" /\ e.o \notin DOMAIN next /\ Make(e.x, e.o) /\ Seen(e) = TRUE
  \/ e.op = "assign" /\ Assign(e.x, e.y) /\ Seen(e) = TRUE
  \/ e.op = "move" /\ Move(e.x, e.y) /\ Seen(e) = TRUE
  \/ e.op = "swap" /\ Swap(e.x, e.y) /\ Seen(e) = TRUE
  \/ e.op = "drop" /\ Drop(e.x) /\ Seen(e) = TRUE
  \/ e.op = "link" /\ Link(e.x, e.y) /\ Seen(e) = TRUE
  \/ e.op = "linkmove" /\ LinkMove(e.x, e.y) /\ Seen(e) = TRUE
  \/ e.op = "cut" /\ Cut(e.x) /\ Seen(e) = TRUE
  \/ e.op = "pop" /\ Pop(e.x) /\ Seen(e) = TRUE
  \/ e.op = "popmove" /\ PopMove(e.x) /\ Seen(e) = TRUE
  \/ e.op = "splice" /\ Splice(e.x) /\ Seen(e) = TRUE
  \/ e.op = "splicemove" /\ SpliceMove(e.x) /\ Seen(e) = TRUE
  \/ e.op = "take" /\ Take(e.x, e.y) /\ Seen(e) = TRUE
  \* making an object hands its constructor the very arguments: what is passed by reference is the caller's
  \* object, what is passed as a temporary is moved, nothing is copied on the way
  \/ /\ e.op = "args" /\ UNCHANGED vars
     /\ (e.changed = e.given + 1 /\ e.left = 0 /\ e.got = e.sent /\ e.same /\ e.kept /\ e.copies = 0 /\ e.moves >= 1) = TRUE
=============================================================================
