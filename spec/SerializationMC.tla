--------------------------- MODULE SerializationMC --------------------------
EXTENDS Serialization
CONSTANTS MemLen, Positions, Depth
VARIABLES last, w    \* w: the latest write <<pos, value, be>> or the empty tuple

Kinds == {"t8", "t16", "t32", "t64", "l64", "n16", "n32", "n64", "f32"}
WidthOf(k) == CASE k = "t8" -> 1 [] k \in {"t16", "n16"} -> 2 [] k \in {"t32", "n32", "f32"} -> 4 [] OTHER -> 8

Value(p, n) == [i \in 1..n |-> IF p = 0 THEN i ELSE IF i % 2 = 1 THEN 255 ELSE 128]
HexOf(p, n) == FoldLeft(LAMBDA a, b : a \o b, "", [i \in 1..n |-> IF p = 0 THEN "0" \o ToString(i) ELSE IF i % 2 = 1 THEN "ff" ELSE "80"])

MCInit == /\ mem = [i \in 1..MemLen |-> 100 + i] /\ w = <<>>
          /\ last = "memn " \o ToString(MemLen)
Order(be) == IF be THEN " be " ELSE " le "
MCNext ==
  \E k \in Kinds, be \in BOOLEAN, pos \in Positions :
    /\ Fits(pos, WidthOf(k))
    /\ \/ \E p \in {0, 1} : /\ mem' = After(pos, Value(p, WidthOf(k)), be)
                            /\ w' = <<pos, Value(p, WidthOf(k)), be>>
                            /\ last' = "ser " \o k \o Order(be) \o ToString(pos) \o " " \o HexOf(p, WidthOf(k))
       \/ UNCHANGED <<mem, w>> /\ last' = "des " \o k \o Order(be) \o ToString(pos)
MCSpec == MCInit /\ [][MCNext]_<<vars, last, w>>
Bound == TLCGet("level") <= Depth

Bytes == \A i \in DOMAIN mem : mem[i] \in 0..255
\* deserializing what was written gives the value back
RoundTrip == w # <<>> => Read(w[1], Len(w[2]), w[3]) = w[2]
\* a write changes only the bytes of the value
Local == [][w' # <<>> => \A i \in DOMAIN mem : (i <= w'[1] \/ i > w'[1] + Len(w'[2])) => mem'[i] = mem[i]]_mem
=============================================================================
