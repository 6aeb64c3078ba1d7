------------------------------- MODULE Bignum -------------------------------
(* Natural numbers of any size: limbs of 15 bits, least significant first, no *)
(* zero limb at the top (zero is the empty sequence).                         *)
EXTENDS Integers, Sequences, SequencesExt
BB == 32768
\* x * k + d, 0 <= k, d <= BB
BMulAdd(x, k, d) ==
  LET st == FoldLeft(LAMBDA a, l : LET p == l * k + a.c IN [c |-> p \div BB, r |-> Append(a.r, p % BB)], [c |-> d, r |-> <<>>], x)
      top == IF st.c = 0 THEN <<>> ELSE IF st.c < BB THEN <<st.c>> ELSE <<st.c % BB, st.c \div BB>>
      full == st.r \o top
  IN IF k = 0 THEN IF d = 0 THEN <<>> ELSE IF d < BB THEN <<d>> ELSE <<0, 1>> ELSE full
BFrom(n) == IF n = 0 THEN <<>> ELSE IF n < BB THEN <<n>> ELSE IF (n \div BB) < BB THEN <<n % BB, n \div BB>>
            ELSE <<n % BB, (n \div BB) % BB, n \div (BB * BB)>>
BIsZero(x) == x = <<>>
BShl(x, n) == IF x = <<>> THEN x ELSE [i \in 1..(n \div 15) |-> 0] \o BMulAdd(x, 2 ^ (n % 15), 0)
BPow5(x, n) == LET a == FoldLeft(LAMBDA v, i : BMulAdd(v, 15625, 0), x, [i \in 1..(n \div 6) |-> i])
               IN BMulAdd(a, 5 ^ (n % 6), 0)
\* -1, 0, 1
BCmp(x, y) ==
  IF Len(x) # Len(y) THEN IF Len(x) < Len(y) THEN -1 ELSE 1
  ELSE FoldLeft(LAMBDA a, i : IF x[i] = y[i] THEN a ELSE IF x[i] < y[i] THEN -1 ELSE 1, 0, [i \in 1..Len(x) |-> i])
\* a small number subtracted from a number that is at least that large
BSub(x, k) == LET st == FoldLeft(LAMBDA a, l : LET p == l - a.c IN IF p >= 0 THEN [c |-> 0, r |-> Append(a.r, p)]
                                                       ELSE [c |-> 1, r |-> Append(a.r, p + BB)], [c |-> k, r |-> <<>>], x)
                  n == Len(st.r)
              IN IF n > 0 /\ st.r[n] = 0 THEN SubSeq(st.r, 1, n - 1) ELSE st.r
\* the number denoted by a sequence of digits 0..9, most significant first
BDecimal(ds) ==
  LET z == Len(ds)
      g(i) == ((IF i > 0 THEN ds[i] * 1000 ELSE 0) + (IF i + 1 > 0 THEN ds[i + 1] * 100 ELSE 0)
               + (IF i + 2 > 0 THEN ds[i + 2] * 10 ELSE 0) + ds[i + 3])
      n == (z + 3) \div 4
  IN FoldLeft(LAMBDA a, j : BMulAdd(a, 10000, g(z - 4 * (n - j) - 3)), <<>>, [j \in 1..n |-> j])
\* sum, difference (of a number not smaller than the other one), product, power
BTrim(x) == LET nz == {i \in 1..Len(x) : x[i] # 0} IN IF nz = {} THEN <<>> ELSE SubSeq(x, 1, CHOOSE i \in nz : \A j \in nz : j <= i)
BAt(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
BAdd(x, y) == LET n == IF Len(x) < Len(y) THEN Len(y) ELSE Len(x)
                  st == FoldLeft(LAMBDA a, i : LET p == BAt(x, i) + BAt(y, i) + a.c IN [c |-> p \div BB, r |-> Append(a.r, p % BB)],
                                 [c |-> 0, r |-> <<>>], [i \in 1..n |-> i])
              IN IF st.c = 0 THEN st.r ELSE Append(st.r, st.c)
BDiff(x, y) == LET st == FoldLeft(LAMBDA a, i : LET p == (x[i] - BAt(y, i)) - a.c
                                                IN IF p >= 0 THEN [c |-> 0, r |-> Append(a.r, p)] ELSE [c |-> 1, r |-> Append(a.r, p + BB)],
                                  [c |-> 0, r |-> <<>>], [i \in 1..Len(x) |-> i])
               IN BTrim(st.r)
BMul(x, y) == IF x = <<>> \/ y = <<>> THEN <<>>
              ELSE FoldLeft(LAMBDA a, i : BAdd(IF a = <<>> THEN a ELSE <<0>> \o a, BMulAdd(x, y[Len(y) + 1 - i], 0)), <<>>, [i \in 1..Len(y) |-> i])
BPow(x, n) == FoldLeft(LAMBDA a, i : BMul(a, x), <<1>>, [i \in 1..n |-> i])
BAbsDiff(x, y) == IF BCmp(x, y) >= 0 THEN BDiff(x, y) ELSE BDiff(y, x)
=============================================================================
