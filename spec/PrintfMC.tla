------------------------------ MODULE PrintfMC ------------------------------
(* Laws of the formatting language on small domains: the width is kept exactly when the text is shorter, the text denotes the value, *)
(* and fixed, scientific and general texts of a double denote the nearest values of so many digits, ties going to even ones.         *)
EXTENDS Printf
CONSTANTS MaxWidth, MaxValue
VARIABLES kind, fl, w, p, v, e
vars == <<kind, fl, w, p, v, e>>
Init == /\ kind \in {"d", "u", "x", "o", "f", "e", "g"} /\ fl \in SUBSET {45, 48, 43, 32, 35} /\ w \in 0..MaxWidth /\ p \in -1..3
        /\ v \in (IF kind = "d" THEN -MaxValue ELSE 0)..MaxValue /\ e \in (IF kind \in {"f", "e", "g"} THEN {-4, -1, 0, 2} ELSE {0})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Image(n) == IF n >= 0 THEN <<n, 0, 0, 0>> ELSE <<B + n, B - 1, B - 1, B - 1>>
Dbl == [t |-> "d", neg |-> FALSE, special |-> "", m |-> BFrom(v), e |-> e]
IsInt == kind \in {"d", "u", "x", "o"}
Text(fl0, w0) == IF kind = "d" THEN Signed(fl0, w0, p, Image(v), 32)
                 ELSE IF IsInt THEN Unsigned(fl0, w0, p, Image(v), 32, kind)
                 ELSE Floating(fl0, w0, p, Dbl, kind)
T == Text(fl, w)
Body == Text(fl, 0)
WidthKept == Len(T) = IF Len(Body) < w THEN w ELSE Len(Body)
Padding == /\ (45 \in fl => T = Body \o Blank(w - Len(Body)))
           /\ (fl \cap {45, 48} = {} => T = Blank(w - Len(Body)) \o Body)
\* the characters used
Digit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE c - 87
Base == CASE kind = "x" -> 16 [] kind = "o" -> 8 [] OTHER -> 10
Unpadded == SelectSeq(T, LAMBDA c : c \notin {32, 43, 45, 120})
Value(s) == FoldLeft(LAMBDA a, c : a * Base + Digit(c), 0, s)
Denotes == IsInt => Value(Unpadded) = (IF v < 0 THEN -v ELSE v) /\ (v < 0 <=> 45 \in ToSet(T))
Precision == IsInt /\ w = 0 => Len(Unpadded) >= p /\ (p = 0 /\ v = 0 /\ 35 \notin fl => Unpadded = <<>>)
\* doubles: v * 2^e with e >= -4, in sixteenths
Six == v * (2 ^ (e + 4))
Abs(n) == IF n < 0 THEN -n ELSE n
\* integer d is the nearest one to Six * num / (16 * den), ties to even
Nearest(d, num, den) == LET diff == Abs(d * 16 * den - Six * num) IN 2 * diff < 16 * den \/ (2 * diff = 16 * den /\ d % 2 = 0)
P == IF p < 0 THEN 6 ELSE p
DigitsOf(s) == SelectSeq(s, LAMBDA c : c >= 48 /\ c <= 57)
Num(s) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, s)
FixedNearest == kind = "f" /\ p >= 0 /\ w = 0 => Nearest(Num(DigitsOf(T)), 10 ^ p, 1) /\ Len(SelectSeq(T, LAMBDA c : c = 46)) = IF p > 0 \/ 35 \in fl THEN 1 ELSE 0
ExpAt(s) == CHOOSE i \in 1..Len(s) : s[i] = 101
ExpOf(s) == LET x == SubSeq(s, ExpAt(s) + 1, Len(s)) IN (IF x[1] = 45 THEN -1 ELSE 1) * Num(Tail(x))
ExpNearest == kind = "e" /\ p >= 0 /\ w = 0 =>
  LET d == DigitsOf(SubSeq(T, 1, ExpAt(T) - 1)) x == ExpOf(T) IN
  /\ Len(d) = p + 1 /\ (v > 0 => d[1] # 48)
  /\ IF x >= p THEN Nearest(Num(d), 1, 10 ^ (x - p)) ELSE Nearest(Num(d), 10 ^ (p - x), 1)
\* the general one is one of the others, without what follows the last significant digit
GeneralIs == kind = "g" /\ w = 0 =>
  LET q == IF P = 0 THEN 1 ELSE P
      x == ExpOf(Floating(fl, 0, q - 1, Dbl, "e"))
      other == IF x >= -4 /\ x < q THEN Floating(fl, 0, (q - 1) - x, Dbl, "f") ELSE Floating(fl, 0, q - 1, Dbl, "e")
  IN IF 35 \in fl THEN T = other
     ELSE IF 101 \in ToSet(T) THEN SubSeq(T, ExpAt(T), Len(T)) = SubSeq(other, ExpAt(other), Len(other)) /\ IsPrefix(SubSeq(T, 1, ExpAt(T) - 1), other) /\ T[ExpAt(T) - 1] # 46
     ELSE IsPrefix(T, other) /\ (46 \in ToSet(T) => T[Len(T)] \notin {46, 48}) /\ (46 \notin ToSet(T) /\ T # other => other[Len(T) + 1] = 46)
=============================================================================
