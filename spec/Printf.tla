------------------------------- MODULE Printf -------------------------------
(* The formatting language of the C library (property C12): flags, width, precision, length modifiers and the      *)
(* conversions d i u x X o c s f F e E g G and %.  Characters are numbers.  An argument is a record: t = "i" an     *)
(* integer, w its 64 bit image as four 16 bit limbs, least significant first; t = "s" a text b, t = "w" a wide one; t = "d" a   *)
(* double, (-1)^neg * m * 2^e, m a Bignum, or special = "inf" or "nan".                                                    *)
EXTENDS Bignum, TLC
B == 65536
Zero == <<0, 0, 0, 0>>
\* quotient and remainder by a small base, digits
DivMod(x, k) ==
  LET r4 == x[4] % k
      v3 == r4 * B + x[3]  r3 == v3 % k
      v2 == r3 * B + x[2]  r2 == v2 % k
      v1 == r2 * B + x[1]
  IN [q |-> <<v1 \div k, v2 \div k, v3 \div k, x[4] \div k>>, r |-> v1 % k]
RECURSIVE LimbDigits(_, _)
LimbDigits(m, b) == LET x == DivMod(m, b) c == IF x.r < 10 THEN 48 + x.r ELSE 87 + x.r IN IF x.q = Zero THEN <<c>> ELSE Append(LimbDigits(x.q, b), c)
Blank(n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> 32]
Nulls(n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> 48]
Upper(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]
-----------------------------------------------------------------------------
(* integers of so many bits *)
Low(w, bits) == [i \in 1..4 |-> IF 16 * i <= bits THEN w[i] ELSE IF 16 * (i - 1) < bits THEN w[i] % (2 ^ (bits - 16 * (i - 1))) ELSE 0]
IsNeg(w, bits) == LET top == (bits - 1) \div 16 + 1 IN (w[top] \div (2 ^ ((bits - 1) % 16))) % 2 = 1
\* two's complement within so many bits
Neg(w, bits) == LET inv == [i \in 1..4 |-> (B - 1) - w[i]]
                    step(a, i) == LET p == inv[i] + a.c IN [c |-> p \div B, r |-> Append(a.r, p % B)]
                IN Low(FoldLeft(LAMBDA a, i : step(a, i), [c |-> 1, r |-> <<>>], <<1, 2, 3, 4>>).r, bits)
\* padding of sign (or prefix) and body to a width; flags are characters: - 0 + space #
Pad(fl, w, zeros, sign, body) ==
  LET n == Len(sign) + Len(body) IN
  IF 45 \in fl THEN sign \o body \o Blank(w - n)
  ELSE IF 48 \in fl /\ zeros THEN sign \o Nulls(w - n) \o body
  ELSE Blank(w - n) \o sign \o body
Sign(fl, neg) == IF neg THEN <<45>> ELSE IF 43 \in fl THEN <<43>> ELSE IF 32 \in fl THEN <<32>> ELSE <<>>
\* at least p digits (one when there is no precision); zero with precision zero has none
AtLeast(p, m, b) == LET d == IF m = Zero /\ p = 0 THEN <<>> ELSE LimbDigits(m, b) IN Nulls((IF p < 0 THEN 1 ELSE p) - Len(d)) \o d
Signed(fl, w, p, v, bits) ==
  LET x == Low(v, bits) neg == IsNeg(x, bits) m == IF neg THEN Neg(x, bits) ELSE x IN Pad(fl, w, p < 0, Sign(fl, neg), AtLeast(p, m, 10))
Unsigned(fl, w, p, v, bits, conv) ==
  LET x == Low(v, bits)
      b == CASE conv = "u" -> 10 [] conv = "o" -> 8 [] OTHER -> 16
      d == AtLeast(p, x, b)
      octal == IF conv = "o" /\ 35 \in fl /\ (d = <<>> \/ d[1] # 48) THEN <<48>> \o d ELSE d
      hex == IF conv \in {"x", "X"} /\ 35 \in fl /\ x # Zero THEN <<48, 120>> ELSE <<>>
      r == Pad(fl, w, p < 0, hex, octal)
  IN IF conv = "X" THEN Upper(r) ELSE r
-----------------------------------------------------------------------------
(* doubles: every one has a finite decimal expansion 0.S * 10^pt, S without leading zeros *)
BDivSmall(x, k) == LET st == FoldLeft(LAMBDA a, i : LET p == a.r * BB + x[Len(x) + 1 - i] IN [r |-> p % k, q |-> <<p \div k>> \o a.q], [r |-> 0, q |-> <<>>],
                                      [i \in 1..Len(x) |-> i])
                   IN [q |-> BTrim(st.q), r |-> st.r]
Four(n) == <<n \div 1000, (n \div 100) % 10, (n \div 10) % 10, n % 10>>
RECURSIVE BDigits(_)
BDigits(x) == IF x = <<>> THEN <<>> ELSE LET d == BDivSmall(x, 10000) IN BDigits(d.q) \o Four(d.r)
NoLead(s) == LET nz == {i \in 1..Len(s) : s[i] # 0} IN IF nz = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in nz : \A j \in nz : i <= j, Len(s))
Expansion(a) == LET s == NoLead(BDigits(IF a.e >= 0 THEN BShl(a.m, a.e) ELSE BPow5(a.m, -a.e)))
                IN [s |-> s, pt |-> Len(s) - (IF a.e >= 0 THEN 0 ELSE -a.e)]
\* increment a sequence of digits; it may become one longer
RECURSIVE Inc(_)
Inc(s) == IF s = <<>> THEN <<1>> ELSE LET n == Len(s) IN IF s[n] < 9 THEN [s EXCEPT ![n] = @ + 1] ELSE Append(Inc(SubSeq(s, 1, n - 1)), 0)
\* 0.s * 10^n to the nearest integer, ties to even: n digits, or one more
Round(s, n) ==
  IF n < 0 THEN <<>>
  ELSE IF n >= Len(s) THEN s \o [i \in 1..(n - Len(s)) |-> 0]
  ELSE LET k == SubSeq(s, 1, n)
           up == s[n + 1] > 5 \/ (s[n + 1] = 5 /\ ((\E i \in (n + 2)..Len(s) : s[i] # 0) \/ (n > 0 /\ s[n] % 2 = 1)))
       IN IF up THEN Inc(k) ELSE k
Chars(s) == [i \in 1..Len(s) |-> 48 + s[i]]
\* a point before the last p digits
Point(fl, c, p) == SubSeq(c, 1, Len(c) - p) \o (IF p > 0 \/ 35 \in fl THEN <<46>> ELSE <<>>) \o SubSeq(c, Len(c) - p + 1, Len(c))
Fixed(fl, x, p) == LET c == Chars(NoLead(Round(x.s, x.pt + p))) IN Point(fl, Nulls(p + 1 - Len(c)) \o c, p)
\* p + 1 significant digits and the exponent they have
Scientific(x, p) == IF x.s = <<>> THEN [d |-> [i \in 1..(p + 1) |-> 0], e |-> 0]
                    ELSE LET r == Round(x.s, p + 1) IN IF Len(r) = p + 2 THEN [d |-> SubSeq(r, 1, p + 1), e |-> x.pt] ELSE [d |-> r, e |-> x.pt - 1]
Dec10(n) == IF n < 10 THEN <<48, 48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
ExpPart(e) == <<101, IF e < 0 THEN 45 ELSE 43>> \o Dec10(IF e < 0 THEN -e ELSE e)
Expo(fl, x, p) == LET y == Scientific(x, p) IN Point(fl, Chars(y.d), p) \o ExpPart(y.e)
\* without trailing zeros of the fraction, and without the point when nothing follows it
NoTrail(c) == LET k == {i \in 1..Len(c) : c[i] # 48} n == CHOOSE i \in k : \A j \in k : j <= i
              IN IF 46 \notin ToSet(c) THEN c ELSE SubSeq(c, 1, IF c[n] = 46 THEN n - 1 ELSE n)
General(fl, x, p0) ==
  LET p == IF p0 = 0 THEN 1 ELSE p0
      y == Scientific(x, p - 1)
      strip(c) == IF 35 \in fl THEN c ELSE NoTrail(c)
  IN IF p > y.e /\ y.e >= -4 THEN strip(Fixed(fl, x, (p - 1) - y.e)) ELSE strip(Point(fl, Chars(y.d), p - 1)) \o ExpPart(y.e)
Floating(fl, w, p0, a, conv) ==
  LET p == IF p0 < 0 THEN 6 ELSE p0
      x == Expansion(a)
      r == IF a.special = "inf" THEN Pad(fl, w, FALSE, Sign(fl, a.neg), <<105, 110, 102>>)
           ELSE IF a.special = "nan" THEN Pad(fl, w, FALSE, Sign(fl, a.neg), <<110, 97, 110>>)
           ELSE Pad(fl, w, TRUE, Sign(fl, a.neg), CASE conv \in {"f", "F"} -> Fixed(fl, x, p) [] conv \in {"e", "E"} -> Expo(fl, x, p) [] OTHER -> General(fl, x, p))
  IN IF conv \in {"F", "E", "G"} THEN Upper(r) ELSE r
-----------------------------------------------------------------------------
(* formats *)
Conv == [c \in {100, 105, 117, 120, 88, 111, 99, 115, 102, 70, 101, 69, 103, 71} |->
         CASE c = 100 -> "d" [] c = 105 -> "d" [] c = 117 -> "u" [] c = 120 -> "x" [] c = 88 -> "X" [] c = 111 -> "o" [] c = 99 -> "c" [] c = 115 -> "s"
           [] c = 102 -> "f" [] c = 70 -> "F" [] c = 101 -> "e" [] c = 69 -> "E" [] c = 103 -> "g" [] c = 71 -> "G"]
\* small integer value of an argument (a width or a precision)
SmallInt(a) == IF IsNeg(Low(a.w, 32), 32) THEN -(LET m == Neg(Low(a.w, 32), 32) IN m[2] * B + m[1]) ELSE a.w[2] * B + a.w[1]
\* a run of characters for which the set has a member, from position i on: the position behind it
RECURSIVE Behind(_, _, _)
Behind(f, i, S) == IF i <= Len(f) /\ f[i] \in S THEN Behind(f, i + 1, S) ELSE i
Number(f, i, j) == FoldLeft(LAMBDA a, k : a * 10 + (f[k] - 48), 0, [k \in 1..(j - i) |-> i + k - 1])
Figures == 48..57
\* number at i, or the next argument for a star: value, position behind, arguments used
Measure(f, i, args, a) == IF f[i] = 42 THEN [v |-> SmallInt(args[a]), i |-> i + 1, a |-> a + 1]
                          ELSE LET j == Behind(f, i, Figures) IN [v |-> Number(f, i, j), i |-> j, a |-> a]
Bits(mods) == CASE mods = <<104, 104>> -> 8 [] mods = <<104>> -> 16 [] mods = <<>> -> 32 [] OTHER -> 64
\* the position of the next % (behind the end if there is none)
RECURSIVE Percent(_, _)
Percent(f, i) == IF i > Len(f) \/ f[i] = 37 THEN i ELSE Percent(f, i + 1)
RECURSIVE From(_, _, _, _)
\* the text from position i of the format on, with argument a being next
From(f, i, args, a) ==
  LET s == Percent(f, i) IN
  IF s > Len(f) THEN SubSeq(f, i, Len(f))
  ELSE LET pre == SubSeq(f, i, s - 1)
       IN IF f[s + 1] = 37 THEN pre \o <<37>> \o From(f, s + 2, args, a)
          ELSE LET i1 == Behind(f, s + 1, {45, 48, 43, 32, 35})
                   fl0 == {f[k] : k \in (s + 1)..(i1 - 1)}
                   w0 == Measure(f, i1, args, a)
                   fl == IF w0.v < 0 THEN fl0 \cup {45} ELSE fl0
                   w == IF w0.v < 0 THEN -w0.v ELSE w0.v
                   dot == f[w0.i] = 46
                   p0 == IF dot THEN Measure(f, w0.i + 1, args, w0.a) ELSE [v |-> -1, i |-> w0.i, a |-> w0.a]
                   i2 == Behind(f, p0.i, {104, 108, 106, 122, 116})
                   mods == SubSeq(f, p0.i, i2 - 1)
                   c == Conv[f[i2]]
                   x == args[p0.a]
                   p == p0.v
                   t == CASE c = "d" -> Signed(fl, w, p, x.w, Bits(mods))
                          [] c \in {"u", "x", "X", "o"} -> Unsigned(fl, w, p, x.w, Bits(mods), c)
                          [] c = "c" -> Pad(fl, w, FALSE, <<>>, <<x.w[1] % 256>>)
                          [] c = "s" -> Pad(fl, w, FALSE, <<>>, IF p < 0 \/ p >= Len(x.b) THEN x.b ELSE SubSeq(x.b, 1, p))
                          [] OTHER -> Floating(fl, w, p, x, c)
               IN pre \o t \o From(f, i2 + 1, args, p0.a + 1)
Formatted(f, args) == From(f, 1, args, 1)
\* the C library reports an error: a wide character has no representation (the locale being "C")
Impossible(args) == \E i \in 1..Len(args) : args[i].t = "w" /\ \E k \in 1..Len(args[i].b) : args[i].b[k] > 127
=============================================================================
