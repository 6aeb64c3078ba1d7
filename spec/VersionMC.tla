------------------------------ MODULE VersionMC ------------------------------
(* The order is total, agrees with the packed number and packing and printing   *)
(* lose nothing: for all triples of versions with components at byte borders.   *)
EXTENDS Version
CONSTANT C
VARIABLES a, b, c
MCInit == Init /\ a \in C \X C /\ b \in C \X C /\ c \in C \X C
MCSpec == MCInit /\ [][UNCHANGED <<seen, a, b, c>>]_<<seen, a, b, c>>
Total == /\ ~(Less(a, b) /\ Less(b, a)) /\ (a # b => Less(a, b) \/ Less(b, a)) /\ ~Less(a, a)
         /\ (Less(a, b) /\ Less(b, c) => Less(a, c))
Agrees == Less(a, b) <=> NumLess(Packed(a), Packed(b))
Injective == (Packed(a) = Packed(b) => a = b) /\ (Text(a) = Text(b) => a = b)
=============================================================================
