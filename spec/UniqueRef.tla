------------------------------ MODULE UniqueRef ------------------------------
(* utki::unique_ref (property C18).  Holders are references ("u") and unique    *)
(* pointers ("p") of a static type; objects are numbered.                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES
  own,    \* set of <<holder, object>>
  born    \* number of objects created so far
vars == <<own, born>>
Alive == {x[2] : x \in own}
Obj(h) == IF \E x \in own : x[1] = h THEN (CHOOSE x \in own : x[1] = h)[2] ELSE 0
Clear(S, h) == {x \in S : x[1] # h}
Make(h) == own' = Clear(own, h) \cup {<<h, born + 1>>} /\ born' = born + 1
\* the object changes its owner; whatever the new owner had is destroyed
Move(h, g) == Obj(g) # 0 /\ own' = Clear(Clear(own, g), h) \cup {<<h, Obj(g)>>} /\ UNCHANGED born
Drop(h) == own' = Clear(own, h) /\ UNCHANGED born
Init == own = {} /\ born = 0
-----------------------------------------------------------------------------
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
Seen(e) == /\ Pairs(e.owners) = own' /\ Len(e.owners) = Cardinality(own')
           /\ Cardinality({e.dead[i] : i \in DOMAIN e.dead}) = Len(e.dead)
           /\ {e.dead[i] : i \in DOMAIN e.dead} = Alive \ {x[2] : x \in own'}
           /\ e.intact
Step(e) ==
  \/ e.op = "reset" /\ own' = {} /\ born' = 0
  \/ e.op = "make" /\ Make(e.h) /\ Seen(e) = TRUE
  \/ e.op = "move" /\ Move(e.h, e.g) /\ Seen(e) = TRUE
  \/ e.op = "drop" /\ Drop(e.h) /\ Seen(e) = TRUE
  \/ /\ e.op = "compare" /\ UNCHANGED vars /\ Seen(e) = TRUE
     /\ LET a == Obj(e.h) b == Obj(e.g) IN
        (e.eq = ((a % 3) = (b % 3)) /\ e.lt = ((a % 3) < (b % 3)) /\ e.eqobj = ((a % 3) = (b % 3))) = TRUE
=============================================================================
