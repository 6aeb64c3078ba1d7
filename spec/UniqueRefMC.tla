----------------------------- MODULE UniqueRefMC -----------------------------
EXTENDS UniqueRef
CONSTANTS MaxObj, Depth
VARIABLES gone, last
S == <<vars, gone, last>>
U == {"u.base.0", "u.base.1", "u.d1.0"}
P == {"p.base.0"}
Type(h) == IF h = "u.d1.0" THEN "d1" ELSE "base"
Sp(h) == CASE h = "u.base.0" -> "u.base 0" [] h = "u.base.1" -> "u.base 1" [] h = "u.d1.0" -> "u.d1 0" [] h = "p.base.0" -> "p.base 0"
MCInit == Init /\ gone = <<>> /\ last = "begin"
Dead == gone' = gone \o SetToSeq(Alive \ {x[2] : x \in own'})
MCNext ==
  \/ \E h \in U : born < MaxObj /\ Make(h) /\ Dead /\ last' = "make " \o Sp(h)
  \/ \E h \in U \cup P, g \in U \cup P :
       /\ h # g /\ (Type(h) = "d1" => Type(g) = "d1") /\ (g = "u.d1.0" => h \in U) /\ ~(h \in P /\ g \in P)
       /\ Move(h, g) /\ Dead /\ last' = "move " \o Sp(h) \o " " \o Sp(g)
  \/ \E h \in U \cup P : Obj(h) # 0 /\ Drop(h) /\ Dead /\ last' = "drop " \o Sp(h)
MCSpec == MCInit /\ [][MCNext]_S
Exclusive == \A x, y \in own : (x[1] = y[1] \/ x[2] = y[2]) => x = y
Once == Cardinality({gone[i] : i \in DOMAIN gone}) = Len(gone)
Exactly == {gone[i] : i \in DOMAIN gone} = (1..born) \ Alive
Bound == TLCGet("level") <= Depth
=============================================================================
