-------------------------------- MODULE Types --------------------------------
(* Answers about types (property C32), and objects owned through a pointer to    *)
(* utki::destructable.                                                          *)
(* A type is written as its layers from the outside: "lref", "rref", "const",    *)
(* "volatile", "ptr", and what is left is a plain type.                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLE alive \* objects that exist
vars == <<alive>>
Init == alive = {}
\* position of a type among a variant's alternatives, which are different from each other
IndexOf(l, x) == (CHOOSE i \in DOMAIN l : l[i] = x) - 1
\* bytes of the smallest integer with room for k bytes
Room(k) == CHOOSE n \in {1, 2, 4, 8} : n >= k /\ \A m \in {1, 2, 4, 8} : m >= k => n <= m
RECURSIVE Without(_, _)
Without(t, layers) == IF t # <<>> /\ Head(t) \in layers THEN Without(Tail(t), layers) ELSE t
RemoveConstReference(t) == Without(Without(t, {"lref", "rref"}), {"const", "volatile"})
Pointee(t) == LET u == Without(t, {"const", "volatile"}) IN IF u # <<>> /\ Head(u) = "ptr" THEN Tail(u) ELSE t
RemoveConstPointer(t) == Without(Pointee(t), {"const"})
Offset(l, n) == [i \in DOMAIN l |-> l[i] + n]
Value(name, k) == CASE name = "bit_mask" -> 2 ^ k [] name \in {"byte_bits", "num_bits_in_byte"} -> 8 [] name \in {"nibble_bits", "num_bits_in_nibble"} -> 4
                    [] name = "lower_nibble_mask" -> 15 [] name = "upper_nibble_mask" -> 240 [] name = "byte_mask" -> 255
\* the function called for an alternative: its own one, otherwise the one for any type
Chosen(handlers, x) == IF Contains(handlers, x) THEN x ELSE "any"
\* the readable name of a type; here a type is written inside out: <<"ptr", t>>, <<"template", name, <<t1, ...>>>>, <<"plain", name>>
RECURSIVE Name(_), Names(_)
Names(l) == IF l = <<>> THEN "" ELSE Name(l[1]) \o (IF Len(l) > 1 THEN ", " ELSE "") \o Names(Tail(l))
Name(t) ==
  CASE t[1] = "plain" -> t[2]
    [] t[1] = "ptr" -> Name(t[2]) \o "*"
    [] t[1] = "lref" -> Name(t[2]) \o "&"
    [] t[1] = "rref" -> Name(t[2]) \o "&&"
    [] t[1] = "const" -> Name(t[2]) \o " const"
    [] t[1] = "volatile" -> Name(t[2]) \o " volatile"
    [] t[1] = "template" -> t[2] \o "<" \o Names(t[3]) \o ">"
\* the type information of a reference is that of what it refers to, without qualifiers
RECURSIVE Bare(_)
Bare(t) == IF t[1] \in {"lref", "rref", "const", "volatile"} THEN Bare(t[2]) ELSE t
-----------------------------------------------------------------------------
Fact(e) ==
  CASE e.op = "index" -> e.r = IndexOf(e.l, e.x) /\ e.dyn = e.r
    [] e.op = "room" -> e.bytes = Room(e.k) /\ e.max = 8 * e.bytes - (IF e.signed THEN 1 ELSE 0) /\ e.kind
    [] e.op = "specialization" -> e.r = (e.made = e.asked) /\ e.rv = e.r
    [] e.op = "scoped" -> e.r = e.is /\ e.rv = e.r
    [] e.op = "has_type" -> e.r = (e.type # "none") /\ e.t = (IF e.type = "none" THEN "void" ELSE e.type)
    [] e.op = "remove_ref" -> e.r = RemoveConstReference(e.t)
    [] e.op = "remove_ptr" -> e.r = RemoveConstPointer(e.t)
    [] e.op = "offset" -> e.r = Offset(e.l, e.n)
    [] e.op = "constant" -> e.r = Value(e.name, e.k)
    [] e.op = "visit" -> e.r = Chosen(e.h, e.x) /\ e.same
    [] e.op = "name" -> e.r = Name(Bare(e.t))
    [] e.op = "macro" -> e.r = e.n
Step(e) ==
  \/ e.op = "reset" /\ alive' = {}
  \/ e.op = "own" /\ e.id \notin alive /\ alive' = alive \cup {e.id}
  \* destroying through a pointer to the base destroys the whole object, and only that one
  \/ e.op = "destroy" /\ e.id \in alive /\ e.gone = <<e.id>> /\ alive' = alive \ {e.id}
  \/ e.op = "clear" /\ ToSet(e.gone) = alive /\ Len(e.gone) = Cardinality(alive) /\ alive' = {}
  \/ e.op \notin {"reset", "own", "destroy", "clear"} /\ UNCHANGED alive /\ Fact(e) = TRUE
=============================================================================
