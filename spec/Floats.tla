------------------------------- MODULE Floats --------------------------------
(* Decimal and hexadecimal floating point literals (property C10).             *)
(* A binary format is [p, emin, emax]: values m * 2^e with m < 2^p and         *)
(* emin <= e <= emax, m >= 2^(p-1) unless e = emin.                           *)
EXTENDS Bignum, TLC
VARIABLES ok
vars == <<ok>>
Single == [p |-> 24, emin |-> -149, emax |-> 104, dmin |-> -46, dmax |-> 40]
Double == [p |-> 53, emin |-> -1074, emax |-> 971, dmin |-> -325, dmax |-> 310]
FmtOf(type) == IF type = "f" THEN Single ELSE Double

-----------------------------------------------------------------------------
(* Nearest representable value *)
\* compare D * 10^E with N * 2^q
CmpDec(D, E, N, q) ==
  LET A == IF E > 0 THEN BPow5(D, E) ELSE D
      B == IF E < 0 THEN BPow5(N, -E) ELSE N
      s == E - q
  IN IF s >= 0 THEN BCmp(BShl(A, s), B) ELSE BCmp(A, BShl(B, -s))

Even(m) == m = <<>> \/ (m[1] % 2) = 0
Pow2(n) == BShl(<<1>>, n)
\* m * 2^e is the value of the format nearest to D * 10^E * 2^S, ties to even m
NearestS(fmt, m, e, D, E, S) ==
  LET m4 == BShl(m, 2)
      bottom == m = Pow2(fmt.p - 1) /\ e > fmt.emin   \* the neighbour below is half as far
      lo == IF m = <<>> THEN <<>> ELSE BSub(m4, IF bottom THEN 1 ELSE 2)
      hi == BMulAdd(m4, 1, 2)
      cl == IF m = <<>> THEN 1 ELSE CmpDec(D, E, lo, e - 2 - S)
      ch == CmpDec(D, E, hi, e - 2 - S)
  IN /\ (cl = 1 \/ (cl = 0 /\ Even(m)))
     /\ (ch = -1 \/ (ch = 0 /\ Even(m)))
\* the value is between the smallest and the largest nonzero value of the format
InRangeS(fmt, D, E, S) ==
  /\ CmpDec(D, E, <<1>>, fmt.emin - S) >= 0
  /\ CmpDec(D, E, BSub(Pow2(fmt.p), 1), fmt.emax - S) <= 0
Nearest(fmt, m, e, D, E) == NearestS(fmt, m, e, D, E, 0)
InRange(fmt, D, E) == InRangeS(fmt, D, E, 0)

\* the bytes of a value, least significant first: sign, significand, exponent
Decode(type, b) ==
  LET n == Len(b)
      neg == b[n] >= 128
      ex == IF n = 4 THEN (b[4] % 128) * 2 + (b[3] \div 128) ELSE (b[8] % 128) * 16 + (b[7] \div 16)
      hidden == IF n = 4 THEN 128 ELSE 16
      top == b[n - 1] % hidden
      sig == <<top + (IF ex = 0 THEN 0 ELSE hidden)>> \o Reverse(SubSeq(b, 1, n - 2))
      m == FoldLeft(LAMBDA a, x : IF a = <<>> /\ x = 0 THEN a ELSE BMulAdd(a, 256, x), <<>>, sig)
      fmt == FmtOf(type)
  IN [neg |-> neg, m |-> m, e |-> fmt.emin + (IF ex = 0 THEN 0 ELSE ex - 1),
      finite |-> ex < (IF n = 4 THEN 255 ELSE 2047)]

-----------------------------------------------------------------------------
(* Grammar of literals: -?digits[.digits][(e|E)[+-]digits], at least one digit *)
Space == {32, 10, 9, 13, 11, 12}
Digit(c) == c >= 48 /\ c <= 57
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
RECURSIVE SkipDigits(_, _)
SkipDigits(t, i) == IF i <= Len(t) /\ Digit(t[i]) THEN SkipDigits(t, i + 1) ELSE i
RECURSIVE SkipSpace(_, _)
SkipSpace(t, i) == IF i <= Len(t) /\ t[i] \in Space THEN SkipSpace(t, i + 1) ELSE i
Vals(t, i, j) == [k \in 1..(j - i) |-> t[i + k - 1] - 48]
SmallNum(ds) == FoldLeft(LAMBDA a, d : IF a > 100000 THEN a ELSE a * 10 + d, 0, ds)
Literal(t, start, format) ==
  LET neg == At(t, start) = 45
      i == IF neg THEN start + 1 ELSE start
      j == SkipDigits(t, i)
      dot == At(t, j) = 46
      k == IF dot THEN SkipDigits(t, j + 1) ELSE j
      fr == IF dot THEN Vals(t, j + 1, k) ELSE <<>>
      ds == Vals(t, i, j) \o fr
      hasE == format # "fixed" /\ At(t, k) \in {69, 101}
      sg == At(t, k + 1) \in {43, 45}
      x == IF sg THEN k + 2 ELSE k + 1
      y == SkipDigits(t, x)
      exp == hasE /\ y > x
      ev == IF exp THEN LET v == SmallNum(Vals(t, x, y)) IN IF At(t, k + 1) = 45 THEN -v ELSE v ELSE 0
      \* significant digits without leading and trailing zeros
      nz == {n \in DOMAIN ds : ds[n] # 0}
      f == CHOOSE n \in nz : \A o \in nz : n <= o
      l == CHOOSE n \in nz : \A o \in nz : n >= o
  IN [valid |-> Len(ds) > 0 /\ (format = "scientific" => exp), neg |-> neg, zero |-> nz = {},
      next |-> IF exp THEN y ELSE k,
      ds |-> IF nz = {} THEN <<>> ELSE SubSeq(ds, f, l),
      e |-> IF nz = {} THEN 0 ELSE ev - Len(fr) + (Len(ds) - l),
      mag |-> IF nz = {} THEN 0 ELSE ev - Len(fr) + (Len(ds) - f)]   \* decimal exponent of the first significant digit
\* the hexadecimal format, of from_chars only: -?xdigits[.xdigits][(p|P)[+-]digits], at least one hexadecimal digit
XDigit(c) == Digit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
XVal(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
RECURSIVE SkipXDigits(_, _)
SkipXDigits(t, i) == IF i <= Len(t) /\ XDigit(t[i]) THEN SkipXDigits(t, i + 1) ELSE i
HexLiteral(t, start) ==
  LET neg == At(t, start) = 45
      i == IF neg THEN start + 1 ELSE start
      j == SkipXDigits(t, i)
      dot == At(t, j) = 46
      k == IF dot THEN SkipXDigits(t, j + 1) ELSE j
      X(a, b) == [n \in 1..(b - a) |-> XVal(t[a + n - 1])]
      fr == IF dot THEN X(j + 1, k) ELSE <<>>
      ds == X(i, j) \o fr
      sg == At(t, k + 1) \in {43, 45}
      x == IF sg THEN k + 2 ELSE k + 1
      y == SkipDigits(t, x)
      exp == At(t, k) \in {80, 112} /\ y > x
      ev == IF exp THEN LET v == SmallNum(Vals(t, x, y)) IN IF At(t, k + 1) = 45 THEN -v ELSE v ELSE 0
      nz == {n \in DOMAIN ds : ds[n] # 0}
      f == CHOOSE n \in nz : \A o \in nz : n <= o
      l == CHOOSE n \in nz : \A o \in nz : n >= o
      sd == IF nz = {} THEN <<>> ELSE SubSeq(ds, f, l)
  IN [valid |-> Len(ds) > 0, neg |-> neg, zero |-> nz = {}, next |-> IF exp THEN y ELSE k,
      D |-> FoldLeft(LAMBDA a, d : BMulAdd(a, 16, d), <<>>, sd),
      s |-> IF nz = {} THEN 0 ELSE ev + 4 * (Len(ds) - l - Len(fr)),          \* binary exponent of the last significant digit
      mag |-> IF nz = {} THEN 0 ELSE ev + 4 * (Len(ds) - f - Len(fr))]         \* and of the first
\* "inf", "nan" and a leading plus sign are not specified
Unspecified(t, start) == LET c == At(t, start) d == At(t, start + 1) L == {73, 105, 78, 110} IN
  c \in L \cup {43} \/ (c = 45 /\ d \in L \cup {43})

-----------------------------------------------------------------------------
CorrectHex(e) ==
  LET x == HexLiteral(e.t, 1)
      fmt == FmtOf(e.type)
      v == Decode(e.type, e.bits)
  IN IF ~x.valid THEN e.r = "invalid_argument"
     ELSE /\ e.left = Len(e.t) - x.next + 1
          /\ e.r # "invalid_argument"
          /\ e.exact
          /\ IF x.zero THEN e.r = "ok" /\ v.m = <<>> /\ v.neg = x.neg
             ELSE (x.mag > fmt.emin - 8 /\ x.mag < fmt.emax + fmt.p + 8) =>
               (InRangeS(fmt, x.D, 0, x.s) =>
                 /\ e.r = "ok" /\ v.finite /\ v.neg = x.neg
                 /\ NearestS(fmt, v.m, v.e, x.D, 0, x.s))
CorrectDec(e) ==
  LET start == IF e.via = "parser" THEN SkipSpace(e.t, 1) ELSE 1
      x == Literal(e.t, start, e.format)
      fmt == FmtOf(e.type)
      v == Decode(e.type, e.bits)
  IN IF ~x.valid THEN e.r = "invalid_argument"
     ELSE /\ e.left = Len(e.t) - x.next + 1
          /\ e.r # "invalid_argument"
          /\ e.exact
          /\ IF x.zero THEN e.r = "ok" /\ v.m = <<>> /\ v.neg = x.neg
             ELSE (x.mag > fmt.dmin /\ x.mag < fmt.dmax) =>
               LET D == BDecimal(x.ds) IN
               InRange(fmt, D, x.e) =>
                 /\ e.r = "ok" /\ v.finite /\ v.neg = x.neg
                 /\ Nearest(fmt, v.m, v.e, D, x.e)
Correct(e) ==
  LET start == IF e.via = "parser" THEN SkipSpace(e.t, 1) ELSE 1
  IN e.inside /\ (~Unspecified(e.t, start) => IF e.format = "hex" THEN CorrectHex(e) ELSE CorrectDec(e))

Init == ok = TRUE
Step(e) ==
  \/ e.op = "reset" /\ UNCHANGED vars
  \/ e.op = "readfloat" /\ Correct(e) = TRUE /\ UNCHANGED vars
=============================================================================
