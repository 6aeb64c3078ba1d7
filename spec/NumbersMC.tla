----------------------------- MODULE NumbersMC ------------------------------
(* Small types exhaustively, wide types at their limits: text and number are inverse. *)
EXTENDS Numbers
CONSTANTS Bits
VARIABLES ty, neg, mag, base, tail
V == <<ok, ty, neg, mag, base, tail>>
Mags(b) == IF b <= 9 THEN {<<n, 0, 0, 0>> : n \in 0..(2 ^ b - 1)}
           ELSE {Zero, <<1, 0, 0, 0>>, <<65535, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<4660, 22136, 39612, 57072>>,
                 Ones(b), Ones(b - 1), MinMag(b), <<9, 0, 0, 0>>, <<10, 0, 0, 0>>, <<65535, 65535, 65535, 32767>>}
MCInit == /\ Init /\ base = 2 /\ tail = <<>>
          /\ ty \in {[signed |-> s, bits |-> b] : s \in BOOLEAN, b \in Bits}
          /\ neg \in BOOLEAN /\ mag \in Mags(ty.bits) /\ InType(ty, neg, mag)
MCNext == /\ \/ base = 2 /\ base' = 8
             \/ base = 8 /\ base' = 10
             \/ base = 10 /\ base' = 16
          /\ tail' \in {<<>>, <<32>>, <<44, 49>>, <<120>>, <<45, 49>>}
          /\ UNCHANGED <<ok, ty, neg, mag>>
MCSpec == MCInit /\ [][MCNext]_V
\* reading the text of a value gives the value, whatever (that is no digit) follows
RoundTrips == (~ty.signed \/ base = 10) =>
  LET t == <<32, 9>> \o ToText(ty, neg, mag, base) \o tail
      x == Read(ty, t) IN x.r = "ok" /\ x.m = mag /\ x.neg = neg /\ x.next = Len(t) - Len(tail) + 1
\* a magnitude one above the maximum reads as zero with all digits consumed
TooBig == LET x == MulAdd(MaxMag(ty, FALSE), 1, 1) IN
  ~x.over => LET t == Digits(x.m, 10) IN Read(ty, t) = Res("ok", FALSE, Zero, Len(t) + 1)
Canonical == LET d == Digits(mag, base) IN (Len(d) > 1 => d[1] # 48) /\ \A i \in DOMAIN d : IsDigit(d[i], base)
=============================================================================
