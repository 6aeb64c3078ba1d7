----------------------------- MODULE SharedRefMC -----------------------------
EXTENDS SharedRef
CONSTANTS MaxObj, Depth
VARIABLES rc, gone, last    \* rc: owner counts kept incrementally; gone: destroyed objects in order
S == <<vars, rc, gone, last>>
R == {"r.base.0", "r.base.1", "r.d1.0", "p.base.0"}
W == {"w.base.0"}
Type(h) == IF h = "r.d1.0" THEN "d1" ELSE "base"
Sp(h) == CASE h = "r.base.0" -> "r.base 0" [] h = "r.base.1" -> "r.base 1" [] h = "r.d1.0" -> "r.d1 0"
           [] h = "p.base.0" -> "p.base 0" [] h = "w.base.0" -> "w.base 0"
Ref == {"r.base.0", "r.base.1", "r.d1.0"}
MCInit == Init /\ rc = <<>> /\ gone = <<>> /\ last = "begin"
Dec(f, o) == IF o = 0 THEN f ELSE [f EXCEPT ![o] = @ - 1]
Inc(f, o) == IF o = 0 THEN f ELSE [f EXCEPT ![o] = @ + 1]
\* destruction when a count falls to zero
Account(f) == /\ rc' = f
              /\ gone' = gone \o SetToSeq({o \in DOMAIN rc : rc[o] > 0 /\ f[o] = 0})
Owned(h) == IF h \in R THEN Obj(h) ELSE 0
MCNext ==
  \/ \E h \in Ref : /\ Len(cls) < MaxObj /\ Make(h, Type(h)) /\ last' = "make " \o Sp(h)
                    /\ Account(Append(Dec(rc, Owned(h)), 1))
  \/ \E h \in R \cup W, g \in R \cup W :
       /\ Obj(g) # 0 /\ h # g
       /\ h = "r.d1.0" => g = "r.d1.0"
       /\ g = "r.d1.0" => h \in Ref           \* pointers of the base are made from references of the base
       /\ g \in W => h = "p.base.0"
       /\ Assign(h, h \in R, g) /\ last' = "assign " \o Sp(h) \o " " \o Sp(g)
       /\ Account(IF h \in R THEN Dec(Inc(rc, Live(g)), Owned(h)) ELSE rc)
  \/ \E h \in Ref, g \in Ref : /\ h # g /\ Type(h) = Type(g) /\ Obj(g) # 0 /\ Move(h, g)
                               /\ last' = "move " \o Sp(h) \o " " \o Sp(g) /\ Account(Dec(rc, Owned(h)))
  \/ \E h \in R \cup W : /\ Obj(h) # 0 /\ Drop(h) /\ last' = "drop " \o Sp(h)
                         /\ Account(IF h \in R THEN Dec(rc, Owned(h)) ELSE rc)
  \/ \E g \in {"r.base.0", "r.base.1"} : LET h == "r.d1.0" IN
       /\ Obj(g) # 0 /\ Cast(h, "d1", g) /\ last' = "cast " \o Sp(h) \o " " \o Sp(g)
       /\ IF IsA(Obj(g), "d1") THEN Account(Dec(Inc(rc, Obj(g)), Owned(h))) ELSE Account(rc)
MCSpec == MCInit /\ [][MCNext]_S
Counted == \A o \in DOMAIN rc : rc[o] = Cardinality({x \in own : x[2] = o})
Once == Cardinality({gone[i] : i \in DOMAIN gone}) = Len(gone)
Exactly == {gone[i] : i \in DOMAIN gone} = (DOMAIN cls) \ Alive
WellTyped == \A x \in own : IsA(x[2], Type(x[1]))
OnePerHolder == \A x, y \in own \cup weak : x[1] = y[1] => x = y
Bound == TLCGet("level") <= Depth
=============================================================================
