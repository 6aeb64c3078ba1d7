------------------------------- MODULE ArithMC -------------------------------
(* The specification's arithmetic agrees with TLC's own on all small numbers,   *)
(* each number has one sixth power only, and Near tells neighbours apart.       *)
EXTENDS Arith
CONSTANT N
VARIABLES a, b
MCInit == Init /\ a \in 0..N /\ b \in 0..N
MCSpec == MCInit /\ [][UNCHANGED <<done, a, b>>]_<<done, a, b>>
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)
Val(n) == BFrom(n)
X(n) == [neg |-> n < 0, d |-> DigitsOf(IF n < 0 THEN -n ELSE n)]
Scale == 211 \* products beyond one limb
Bignums == LET x == a * Scale y == b * Scale IN
  /\ BAdd(Val(x), Val(y)) = Val(x + y) /\ (x >= y => BDiff(Val(x), Val(y)) = Val(x - y))
  /\ BMul(Val(x), Val(y)) = Val(x * y) /\ BPow(Val(a), 4) = Val(a * a * a * a) /\ BDecimal(DigitsOf(x)) = Val(x)
  /\ BCmp(Val(x), Val(y)) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
Powers == /\ \A k \in 2..4 : Power(X(a), k, X(b)) <=> b = a ^ k
          /\ \A k \in 2..4 : a > 0 => (Power(X(-a), k, X(IF k % 2 = 1 THEN -b ELSE b)) <=> b = a ^ k)
          /\ (a # b => ~Power(X(a), 6, [neg |-> FALSE, d |-> DigitsOf(0)]) \/ a = 0)
Nearness == /\ (b > 0 => (Near(Val(a), Val(b), 3) <=> 8 * (IF a < b THEN b - a ELSE a - b) <= b))
            /\ NearAt(Val(4 * a), 0, Val(a), 2, 40) /\ (a # b /\ b > 0 => ~NearAt(Val(a), 0, Val(b), 0, 20))
=============================================================================
