------------------------------ MODULE SharedRef ------------------------------
(* utki::shared_ref and friends (property C17).  A holder is a named place for  *)
(* a reference (kind "r"), a shared pointer ("p") or a weak pointer ("w") of a  *)
(* static type; objects are numbered.                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES
  own,    \* set of <<holder, object>>: strong holders
  weak,   \* set of <<holder, object>>: weak holders
  cls     \* classes of the objects created so far
vars == <<own, weak, cls>>
Bases(c) == CASE c = "d1" -> {"d1", "base", "cbase"} [] c = "base" -> {"base", "cbase"}
              [] c = "multi" -> {"multi", "base", "cbase", "other"} [] c = "other" -> {"other"}
              [] c = "sha" -> {"sha"} [] c = "shb" -> {"shb"} [] c = "shab" -> {"shab", "sha", "shb"}
              [] c = "es" -> {"es", "ces"}
IsA(o, type) == type \in Bases(cls[o])
Alive == {x[2] : x \in own}
Obj(h) == IF \E x \in own : x[1] = h THEN (CHOOSE x \in own : x[1] = h)[2]
          ELSE IF \E x \in weak : x[1] = h THEN (CHOOSE x \in weak : x[1] = h)[2] ELSE 0
Clear(S, h) == {x \in S : x[1] # h}
Put(S, h, o) == Clear(S, h) \cup (IF o = 0 THEN {} ELSE {<<h, o>>})
\* what a holder yields when read: nothing for a weak one whose object is gone
Live(h) == IF Obj(h) \in Alive THEN Obj(h) ELSE 0

Make(h, c) == /\ own' = Put(own, h, Len(cls) + 1) /\ cls' = Append(cls, c) /\ UNCHANGED weak
\* strong or weak holder h gets what g has
Assign(h, strong, g) == LET o == Live(g) IN
  IF strong THEN own' = Put(own, h, o) /\ UNCHANGED <<weak, cls>>
  ELSE weak' = Put(weak, h, o) /\ UNCHANGED <<own, cls>>
Move(h, g) == LET o == Obj(g) IN own' = Put(Clear(own, g), h, o) /\ UNCHANGED <<weak, cls>>
Drop(h) == own' = Clear(own, h) /\ weak' = Clear(weak, h) /\ UNCHANGED cls
CastResult(g, type) == IF IsA(Obj(g), type) THEN "ok" ELSE "bad_cast"
Cast(h, type, g) == IF IsA(Obj(g), type) THEN Assign(h, TRUE, g) ELSE UNCHANGED vars

Init == own = {} /\ weak = {} /\ cls = <<>>
-----------------------------------------------------------------------------
\* seen: holder, object pairs; dead: destroyed by this step; counts: object, number of owners pairs
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
Seen(e) ==
  LET al == {x[2] : x \in own'} IN
  /\ Pairs(e.strong) = own'
  /\ Pairs(e.weak) = {x \in weak' : x[2] \in al}
  /\ Pairs(e.counts) = {<<o, Cardinality({x \in own' : x[2] = o})>> : o \in al}
  \* destroyed now: each once, exactly those that lost their last owner
  /\ Cardinality({e.dead[i] : i \in DOMAIN e.dead}) = Len(e.dead)
  /\ {e.dead[i] : i \in DOMAIN e.dead} = Alive \ al
  /\ e.intact
Step(e) ==
  \/ e.op = "reset" /\ own' = {} /\ weak' = {} /\ cls' = <<>>
  \/ e.op = "make" /\ Make(e.h, e.cls) /\ Seen(e) = TRUE
  \/ e.op = "assign" /\ Assign(e.h, e.strong_dst, e.g) /\ Seen(e) = TRUE
  \/ e.op = "move" /\ Move(e.h, e.g) /\ Seen(e) = TRUE
  \/ e.op = "drop" /\ Drop(e.h) /\ Seen(e) = TRUE
  \/ e.op = "cast" /\ e.r = CastResult(e.g, e.type) /\ Cast(e.h, e.type, e.g) /\ Seen(e) = TRUE
  \* values are compared: object o has value o % 3
  \/ /\ e.op = "compare" /\ UNCHANGED vars /\ Seen(e) = TRUE
     /\ LET a == Obj(e.h) b == Obj(e.g) IN
        (e.eq = ((a % 3) = (b % 3)) /\ e.lt = ((a % 3) < (b % 3)) /\ e.eqobj = ((a % 3) = (b % 3))) = TRUE
=============================================================================
