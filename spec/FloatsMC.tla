------------------------------ MODULE FloatsMC -------------------------------
(* In a toy format every decimal in range has exactly one nearest value, and   *)
(* it is the one plain arithmetic gives; big number arithmetic agrees with     *)
(* machine integers; literals parse back whatever follows.                     *)
EXTENDS Floats
CONSTANTS P, Sub, EMax, MaxD, Down, Up
VARIABLES D, E
EMin == -Sub
Es == (-Down)..Up
toy == [p |-> P, emin |-> EMin, emax |-> EMax]
\* all (m, e) of the toy format
Vs == {<<m, EMin>> : m \in 0..(2 ^ P - 1)} \cup {<<m, e>> : m \in (2 ^ (P - 1))..(2 ^ P - 1), e \in (EMin + 1)..EMax}
MCInit == Init /\ D \in 1..MaxD /\ E \in Es
MCSpec == MCInit /\ [][FALSE]_<<ok, D, E>>
\* exact values scaled by 2^-EMin * 10^-min(Es)
Sc == IF E < 0 THEN 10 ^ (-E) ELSE 1
DV == (IF E < 0 THEN D ELSE D * 10 ^ E) * 2 ^ (-EMin)
VV(v) == v[1] * 2 ^ (v[2] - EMin) * Sc
Abs(n) == IF n < 0 THEN -n ELSE n
Dist(v) == Abs(DV - VV(v))
Sel == {v \in Vs : Nearest(toy, BFrom(v[1]), v[2], BFrom(D), E)}
MaxV == <<2 ^ P - 1, EMax>>
RangeAgrees == InRange(toy, BFrom(D), E) <=> (DV >= Sc /\ DV <= VV(MaxV))
ExactlyOne == InRange(toy, BFrom(D), E) =>
  /\ \E v \in Vs : Sel = {v}
  /\ \A v \in Sel : /\ \A w \in Vs : Dist(v) <= Dist(w)
                    /\ (\E w \in Vs : VV(w) # VV(v) /\ Dist(w) = Dist(v)) => (v[1] % 2) = 0
\* text of D and E, with followers
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dig(n \div 10), 48 + (n % 10))
Txt == Dig(D) \o <<101>> \o (IF E < 0 THEN <<45>> \o Dig(-E) ELSE Dig(E))
\* how D * 10^E compares with one
Sign == LET a == IF E < 0 THEN D ELSE D * 10 ^ E IN IF a < Sc THEN -1 ELSE IF a = Sc THEN 0 ELSE 1
Parses == \A f \in {<<>>, <<32>>, <<46, 53>>, <<101>>, <<101, 43>>, <<109>>} :
  LET x == Literal(<<45>> \o Txt \o f, 1, "general")
  IN x.valid /\ x.neg /\ x.next = Len(Txt) + 2 /\ CmpDec(BDecimal(x.ds), x.e, <<1>>, 0) = Sign
     /\ BDecimal(Vals(Dig(D), 1, Len(Dig(D)) + 1)) = BFrom(D)
\* the same in base 16: the digits of D * 2^E
XDig(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE XText(_)
XText(n) == IF n < 16 THEN <<XDig(n)>> ELSE Append(XText(n \div 16), XDig(n % 16))
HTxt == XText(D) \o <<112>> \o (IF E < 0 THEN <<45>> \o Dig(-E) ELSE Dig(E))
HDotted == LET d == XText(D) IN SubSeq(d, 1, 1) \o <<46>> \o SubSeq(d, 2, Len(d)) \o <<80>> \o (LET n == E + 4 * (Len(d) - 1) IN IF n < 0 THEN <<45>> \o Dig(-n) ELSE <<43>> \o Dig(n))
HSign == LET a == IF E < 0 THEN D ELSE D * 2 ^ E b == IF E < 0 THEN 2 ^ (-E) ELSE 1 IN IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
ParsesHex == \A f \in {<<>>, <<32>>, <<46>>, <<112>>, <<112, 43>>, <<120>>}, u \in {HTxt, HDotted} :
  LET x == HexLiteral(<<45>> \o u \o f, 1)
  IN /\ x.valid /\ x.neg /\ x.next = Len(u) + 2 /\ CmpDec(x.D, 0, <<1>>, -x.s) = HSign
     /\ (x.zero <=> D = 0) /\ (~x.zero => BCmp(BShl(x.D, IF x.s > E THEN x.s - E ELSE 0), BShl(BFrom(D), IF x.s < E THEN E - x.s ELSE 0)) = 0)
Arith == /\ BMulAdd(BFrom(D), 10000, 7) = BFrom(D * 10000 + 7)
         /\ BShl(BFrom(D), 17) = BMulAdd(BFrom(D * 16384), 8, 0)
         /\ BSub(BFrom(D * 32768), 1) = BFrom(D * 32768 - 1)
         /\ BPow5(BFrom(D), 7) = BMulAdd(BFrom(D * 3125), 25, 0)
         /\ BCmp(BFrom(D), BFrom(D * 2)) = -1 /\ BCmp(BFrom(D * 70000), BFrom(D)) = 1 /\ BCmp(BFrom(D), BFrom(D)) = 0
Inv == RangeAgrees /\ ExactlyOne /\ Parses /\ ParsesHex /\ Arith
=============================================================================
