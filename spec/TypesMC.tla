------------------------------ MODULE TypesMC --------------------------------
(* Laws of the answers for all types of up to four layers, all lists of three    *)
(* out of four types, all sizes; and all ways to own three objects.             *)
EXTENDS Types
CONSTANT Ids
VARIABLES t, last
mvars == <<vars, t, last>>
Layers == {"lref", "rref", "const", "volatile", "ptr"}
\* references outside only, const in front of volatile, each once
Type(x) == /\ \A i \in 2..Len(x) : x[i] \notin {"lref", "rref"}
           /\ \A i \in 1..(Len(x) - 1) : x[i + 1] \in {"const", "volatile"} => (x[i] = "const" /\ x[i + 1] = "volatile") \/ x[i] \in {"ptr", "lref", "rref"}
MCInit == Init /\ t \in {x \in UNION {[1..n -> Layers] : n \in 0..5} : Type(x)} /\ last = "begin"
MCNext == /\ UNCHANGED t /\ t = <<>>
          /\ \/ \E i \in Ids, k \in {"plain", "second", "virtual"} : Step([op |-> "own", id |-> i]) /\ last' = "own " \o ToString(i) \o " " \o k
             \/ \E i \in Ids : Step([op |-> "destroy", id |-> i, gone |-> <<i>>]) /\ last' = "destroy " \o ToString(i)
             \/ Step([op |-> "clear", gone |-> SetToSeq(alive)]) /\ last' = "clear"
MCSpec == MCInit /\ [][MCNext]_mvars
R(x) == RemoveConstReference(x)
RefLaws == /\ R(R(t)) = R(t) /\ (R(t) # <<>> => Head(R(t)) \notin {"const", "volatile"})
           /\ IsSuffix(R(t), t) /\ R(<<"const">> \o R(t)) = R(t) /\ (t = <<>> \/ Head(t) \notin {"lref", "rref"} => R(<<"lref">> \o t) = R(t))
           /\ ("ptr" \in ToSet(t) <=> "ptr" \in ToSet(R(t)))
PtrLaws == LET p == RemoveConstPointer(t) IN IsSuffix(p, t) /\ (t = <<>> \/ Head(t) \notin {"lref", "rref"} => RemoveConstPointer(<<"ptr">> \o t) = Without(t, {"const"}))
Lists == {l \in [1..3 -> 1..4] : IsInjective(l)}
IndexLaws == t = t /\ \A l \in Lists : \A i \in 1..3 : IndexOf(l, l[i]) = i - 1
RoomLaws == t = t /\ \A k \in 1..8 : Room(k) >= k /\ (Room(k) > 1 => Room(k) < 2 * k)
\* masks
Masks == t = t /\ Value("lower_nibble_mask", 0) + Value("upper_nibble_mask", 0) = Value("byte_mask", 0)
         /\ Value("byte_mask", 0) = Value("bit_mask", 7) * 2 - 1 /\ 2 ^ Value("byte_bits", 0) = Value("byte_mask", 0) + 1
=============================================================================
