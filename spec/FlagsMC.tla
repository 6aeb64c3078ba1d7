------------------------------- MODULE FlagsMC -------------------------------
(* Every operation from every state, for small enumerations; the bit string     *)
(* representation computes the set operations.                                  *)
EXTENDS Flags
CONSTANT MaxN
VARIABLE last
S == <<vars, last>>
T(x) == ToString(x)
Used == {0, 1}
MCInit == n \in 1..MaxN /\ fs = [s \in Slots |-> {}] /\ last = "kind " \o T(n)
B(v) == IF v THEN "1" ELSE "0"
MCNext ==
  \/ \E s \in Used, f \in All, v \in BOOLEAN : Becomes(s, With(fs[s], f, v)) /\ last' = "set " \o T(s) \o " " \o T(f) \o " " \o B(v)
  \/ \E s \in Used, v \in BOOLEAN : Becomes(s, IF v THEN All ELSE {}) /\ last' = "setall " \o T(s) \o " " \o B(v)
  \/ \E s \in Used : Becomes(s, All \ fs[s]) /\ last' = "inv " \o T(s)
  \/ \E s, a \in Used : Becomes(s, All \ fs[a]) /\ last' = "not " \o T(s) \o " " \o T(a)
  \/ \E s, a, b \in Used, o \in {"and", "or", "xor"} :
       Becomes(s, Bin(o, fs[a], fs[b])) /\ last' = o \o " " \o T(s) \o " " \o T(a) \o " " \o T(b)
  \/ \E s, a \in Used, o \in {"and", "or", "xor"}, f \in All :
       Becomes(s, Bin(o, fs[a], {f})) /\ last' = o \o "1 " \o T(s) \o " " \o T(a) \o " " \o T(f)
  \/ \E a \in Used : UNCHANGED vars /\ last' = "q " \o T(a)
  \/ UNCHANGED vars /\ last' = "cmp 0 1"
MCSpec == MCInit /\ [][MCNext]_S
BitBin(o, x, y) == IF o = "and" THEN x * y ELSE IF o = "or" THEN x + y - x * y ELSE (x + y) % 2
Representation ==
  LET a == fs[0] b == fs[1] IN
  /\ \A o \in {"and", "or", "xor"} : Bits(Bin(o, a, b)) = [i \in 1..n |-> BitBin(o, Bits(a)[i], Bits(b)[i])]
  /\ Bits(All \ a) = [i \in 1..n |-> 1 - Bits(a)[i]]
  /\ (Bits(a) = Bits(b)) = (a = b) /\ (Text(a) = Text(b)) = (a = b)
  /\ All \ (a \cup b) = (All \ a) \cap (All \ b) /\ Xor(Xor(a, b), b) = a
=============================================================================
