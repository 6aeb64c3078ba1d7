-------------------------------- MODULE Arith --------------------------------
(* Signs, powers, angles and constants (property C31).                          *)
(* An integer is [neg, d]: sign and decimal digits, most significant first.     *)
(* A binary floating point number is [neg, d, e]: (-1)^neg * d * 2^e, where the *)
(* integer d is odd or zero.                                                    *)
EXTENDS Bignum, TLC
VARIABLE done
vars == <<done>>
Init == done = 0
Big(x) == BDecimal(x.d)
IsZero(x) == BIsZero(Big(x))
\* a and b agree up to one part in 2^p
Near(a, b, p) == BCmp(BShl(BAbsDiff(a, b), p), b) <= 0
\* a * 2^m against b * 2^n
NearAt(a, m, b, n, p) == LET k == IF m < n THEN m ELSE n IN Near(BShl(a, m - k), BShl(b, n - k), p)
\* the sign of a number; a zero (of either sign) is not negative
SignOk(x, r) == IF IsZero(x) THEN r \in {0, 1} ELSE r = (IF x.neg THEN -1 ELSE 1)
\* r is x to the power of k
Negative(x, k) == x.neg /\ k % 2 = 1
Power(x, k, r) == BCmp(Big(r), BPow(Big(x), k)) = 0 /\ (~IsZero(x) => r.neg = Negative(x, k))
\* the same for floating point numbers: exactly (powers of odd numbers are odd), and up to one part in 2^p
PowerF(x, k, r) == IF IsZero(x) THEN IsZero(r) ELSE Power(x, k, r) /\ r.e = k * x.e
PowerNear(x, k, r, p) == IF IsZero(x) THEN IsZero(r) ELSE r.neg = Negative(x, k) /\ NearAt(Big(r), r.e, BPow(Big(x), k), k * x.e, p)
\* pi times 10^35 and ln 2 times 10^30
Pi35 == BDecimal(<<3,1,4,1,5,9,2,6,5,3,5,8,9,7,9,3,2,3,8,4,6,2,6,4,3,3,8,3,2,7,9,5,0,2,8,8>>)
Ln30 == BDecimal(<<6,9,3,1,4,7,1,8,0,5,5,9,9,4,5,3,0,9,4,1,7,2,3,2,1,2,1,4,5,8>>)
Ten(n) == BShl(BPow5(<<1>>, n), n)
\* rad is deg * pi / 180, up to one part in 2^p
Angle(deg, rad, p) == IF IsZero(deg) THEN IsZero(rad)
                      ELSE deg.neg = rad.neg /\ NearAt(BMul(BMulAdd(Big(rad), 180, 0), Ten(35)), rad.e, BMul(Big(deg), Pi35), deg.e, p)
Same(x, y, p) == IF IsZero(x) THEN IsZero(y) ELSE x.neg = y.neg /\ NearAt(Big(y), y.e, Big(x), x.e, p)
\* x * n = value, up to the precision of a double
Is(x, n, value) == ~x.neg /\ NearAt(BMul(Big(x), n), x.e, value, 0, 51)
Constant(name, x) ==
  CASE name = "pi" -> Is(x, Ten(35), Pi35)
    [] name = "two_pi" -> Is(x, Ten(35), BMulAdd(Pi35, 2, 0))
    [] name = "pi_degrees" -> Is(x, <<1>>, <<180>>)
    [] name = "log_2" -> Is(x, Ten(30), Ln30)
    [] name = "cm_per_inch" -> Is(x, Ten(2), <<254>>)
    [] name = "mm_per_inch" -> Is(x, Ten(1), <<254>>)
    [] name = "kilobyte" -> Is(x, <<1>>, <<1024>>)
    [] name = "hundred_percent" -> Is(x, <<1>>, <<100>>)
-----------------------------------------------------------------------------
Step(e) ==
  \/ e.op = "reset" /\ done' = 0
  \/ /\ done' = done + 1
     /\ \/ e.op = "sign" /\ SignOk(e.x, e.r) = TRUE
        \/ e.op = "pow" /\ Power(e.x, e.k, e.r) = TRUE
        \/ e.op = "powf" /\ (IF e.exact THEN PowerF(e.x, e.k, e.r) ELSE PowerNear(e.x, e.k, e.r, e.p)) = TRUE
        \/ e.op = "deg" /\ (Angle(e.x, e.r, e.p) /\ Same(e.x, e.back, e.p)) = TRUE
        \/ e.op = "rad" /\ (Angle(e.r, e.x, e.p) /\ Same(e.x, e.back, e.p)) = TRUE
        \/ e.op = "constant" /\ Constant(e.name, e.x) = TRUE
=============================================================================
