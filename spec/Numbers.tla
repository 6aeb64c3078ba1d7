------------------------------ MODULE Numbers -------------------------------
(* Integers as text (property C09).  A magnitude is a sequence of four 16 bit *)
(* limbs, least significant first; arithmetic carries a fifth limb so that    *)
(* overflow of 64 bit is seen.                                                *)
EXTENDS Integers, Sequences, SequencesExt, TLC

B == 65536
Zero == <<0, 0, 0, 0>>
Space == {32, 10, 9, 13, 11, 12}

\* x * k + d with carry out; x is a four limb magnitude, k <= 16
MulAdd(x, k, d) ==
  LET s1 == x[1] * k + d
      s2 == x[2] * k + (s1 \div B)
      s3 == x[3] * k + (s2 \div B)
      s4 == x[4] * k + (s3 \div B)
  IN [m |-> <<s1 % B, s2 % B, s3 % B, s4 % B>>, over |-> s4 \div B > 0]

\* quotient and remainder by a small base
DivMod(x, k) ==
  LET r4 == x[4] % k
      v3 == r4 * B + x[3]  r3 == v3 % k
      v2 == r3 * B + x[2]  r2 == v2 % k
      v1 == r2 * B + x[1]
  IN [q |-> <<v1 \div k, v2 \div k, v3 \div k, x[4] \div k>>, r |-> v1 % k]

Leq(x, y) == LET d == {i \in 1..4 : x[i] # y[i]} IN
  IF d = {} THEN TRUE ELSE LET h == CHOOSE i \in d : \A j \in d : j <= i IN x[h] < y[h]

\* the largest magnitude of a type; one more for negative numbers of a signed type
Limb(bits, i) == LET b == bits - 16 * (i - 1) IN IF b <= 0 THEN 0 ELSE IF b >= 16 THEN B - 1 ELSE 2 ^ b - 1
Ones(bits) == [i \in 1..4 |-> Limb(bits, i)]
MinMag(bits) == [i \in 1..4 |-> IF (bits - 1) \div 16 = i - 1 THEN 2 ^ ((bits - 1) % 16) ELSE 0]
MaxMag(ty, neg) == IF ~ty.signed THEN Ones(ty.bits) ELSE IF neg THEN MinMag(ty.bits) ELSE Ones(ty.bits - 1)
InType(ty, neg, m) == Leq(m, MaxMag(ty, neg)) /\ (neg => ty.signed /\ m # Zero)

-----------------------------------------------------------------------------
(* number to text *)
DigitChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Digits(_, _)
Digits(m, b) == LET x == DivMod(m, b) IN
  IF x.q = Zero THEN <<DigitChar(x.r)>> ELSE Append(Digits(x.q, b), DigitChar(x.r))
Prefix(ty, b) == IF ty.signed THEN <<>>
                 ELSE CASE b = 2 -> <<48, 98>> [] b = 8 -> <<48>> [] b = 10 -> <<>> [] b = 16 -> <<48, 120>>
ToText(ty, neg, m, b) == Prefix(ty, b) \o (IF neg THEN <<45>> ELSE <<>>) \o Digits(m, b)

-----------------------------------------------------------------------------
(* text to number *)
DigitVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87
               ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
IsDigit(c, b) == DigitVal(c) < b
CharAt(t, i) == IF i >= 1 /\ i <= Len(t) THEN t[i] ELSE -1

\* value of the run of digits of base b starting at position i (1-based): end position, magnitude, overflow of 64 bit
Scan(t, i, b) ==
  FoldLeft(LAMBDA st, c : IF st.stop \/ ~IsDigit(c, b) THEN [st EXCEPT !.stop = TRUE]
                          ELSE LET x == MulAdd(st.m, b, DigitVal(c))
                               IN [st EXCEPT !.m = x.m, !.over = @ \/ x.over, !.n = @ + 1],
           [m |-> Zero, over |-> FALSE, n |-> 0, stop |-> FALSE], SubSeq(t, i, Len(t)))

Skip(t) == LET non == {k \in 1..Len(t) : t[k] \notin Space} IN
  IF non = {} THEN Len(t) + 1 ELSE CHOOSE k \in non : \A j \in non : k <= j

Res(r, neg, m, next) == [r |-> r, neg |-> neg /\ m # Zero, m |-> m, next |-> next]
None == Res("invalid_argument", FALSE, Zero, 0)
Anything == Res("any", FALSE, Zero, 0)

\* the number made of the digits from position i on, in base b
NumberAt(ty, t, i, b, neg) ==
  LET s == Scan(t, i, b) IN
  IF s.n = 0 THEN None
  ELSE IF s.over \/ ~Leq(s.m, MaxMag(ty, neg)) THEN Res("ok", FALSE, Zero, i + s.n)   \* out of range: zero, all digits consumed
  ELSE Res("ok", neg, s.m, i + s.n)

Read(ty, t) ==
  LET i == Skip(t)  c0 == CharAt(t, i)  c1 == CharAt(t, i + 1)  c2 == CharAt(t, i + 2) IN
  IF ty.signed THEN (IF c0 = 45 THEN NumberAt(ty, t, i + 1, 10, TRUE) ELSE NumberAt(ty, t, i, 10, FALSE))
  ELSE IF c0 # 48 THEN NumberAt(ty, t, i, 10, FALSE)
  ELSE IF c1 = 120 /\ IsDigit(c2, 16) THEN NumberAt(ty, t, i + 2, 16, FALSE)
  ELSE IF c1 = 98 /\ IsDigit(c2, 2) THEN NumberAt(ty, t, i + 2, 2, FALSE)
  ELSE IF IsDigit(c1, 8) THEN NumberAt(ty, t, i + 1, 8, FALSE)
  ELSE IF IsDigit(c1, 10) THEN Anything            \* 08, 09: neither octal nor decimal
  ELSE Res("ok", FALSE, Zero, i + 1)               \* a lone zero

ReadOk(e) ==
  LET x == Read([signed |-> e.signed, bits |-> e.bits], e.t) IN
  CASE x.r = "any" -> e.r \in {"ok", "invalid_argument"}
    [] x.r = "invalid_argument" -> e.r = "invalid_argument"
    [] OTHER -> e.r = "ok" /\ e.neg = x.neg /\ e.mag = x.m /\ e.left = Len(e.t) + 1 - x.next /\ e.inside

-----------------------------------------------------------------------------
VARIABLE ok
vars == <<ok>>
Init == ok = TRUE
Step(e) ==
  /\ UNCHANGED ok
  /\ \/ e.op = "reset"
     \/ e.op = "tostr" /\ e.res = ToText([signed |-> e.signed, bits |-> e.bits], e.neg, e.mag, e.base)
     \/ e.op = "readnum" /\ ReadOk(e) = TRUE
=============================================================================
