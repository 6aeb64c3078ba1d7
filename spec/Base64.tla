------------------------------- MODULE Base64 -------------------------------
(* base64 (RFC 4648, standard alphabet) and what decoding guarantees for     *)
(* arbitrary text (property C03).  Characters are their codes.               *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Pad == 61                                   \* '='
CharOf(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + (v - 26) ELSE IF v < 62 THEN 48 + (v - 52)
             ELSE IF v = 62 THEN 43 ELSE 47
ValueOf(c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN (c - 97) + 26
              ELSE IF c >= 48 /\ c <= 57 THEN (c - 48) + 52 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1

ByteAt(bs, i) == IF i <= Len(bs) THEN bs[i] ELSE 0

\* the sextets of a byte sequence
Sextets(bs) ==
  LET n == (Len(bs) * 8 + 5) \div 6
      S(k) == LET q == (k - 1) \div 4  j == (k - 1) % 4
                  a == ByteAt(bs, 3 * q + 1)  b == ByteAt(bs, 3 * q + 2)  c == ByteAt(bs, 3 * q + 3)
              IN CASE j = 0 -> a \div 4
                   [] j = 1 -> (a % 4) * 16 + (b \div 16)
                   [] j = 2 -> (b % 16) * 4 + (c \div 64)
                   [] j = 3 -> c % 64
  IN [k \in 1..n |-> S(k)]

Unpadded(bs) == [k \in 1..Len(Sextets(bs)) |-> CharOf(Sextets(bs)[k])]
Padded(bs) == LET u == Unpadded(bs) IN u \o [k \in 1..((4 - (Len(u) % 4)) % 4) |-> Pad]

\* the other direction, on characters of the alphabet only: whole bytes contained in the sextets of text u
Body(t) == LET n == Len(t) IN
  IF n >= 1 /\ t[n] = Pad THEN (IF n >= 2 /\ t[n - 1] = Pad THEN SubSeq(t, 1, n - 2) ELSE SubSeq(t, 1, n - 1)) ELSE t
Bytes(u) ==
  LET V(k) == IF k <= Len(u) THEN ValueOf(u[k]) ELSE 0
      B(i) == LET q == (i - 1) \div 3  j == (i - 1) % 3
                  a == V(4 * q + 1)  b == V(4 * q + 2)  c == V(4 * q + 3)  d == V(4 * q + 4)
              IN CASE j = 0 -> a * 4 + (b \div 16)
                   [] j = 1 -> (b % 16) * 16 + (c \div 4)
                   [] j = 2 -> (c % 4) * 64 + d
  IN [i \in 1..((Len(u) * 6) \div 8) |-> B(i)]

InAlphabet(u) == \A k \in DOMAIN u : ValueOf(u[k]) >= 0

\* t is the encoding of some byte sequence, padded or not
IsEncoding(t) == LET u == Body(t) IN InAlphabet(u) /\ (t = Unpadded(Bytes(u)) \/ t = Padded(Bytes(u)))

\* no encoding has this length, or the padding is incomplete
BadLength(t) == LET n == Len(t) IN n > 0 /\ IF t[n] = Pad THEN n % 4 # 0 ELSE n % 4 = 1

Allowed(t, r, v) ==
  IF IsEncoding(t) THEN r = "ok" /\ v = Bytes(Body(t))
  ELSE IF BadLength(t) THEN r = "invalid_argument"
  ELSE r = "invalid_argument" \/ (r = "ok" /\ Len(v) * 4 <= Len(t) * 3)

\* a long text made of n equal units of whole quads and a tail: decoding is a homomorphism on whole quads
Repeated(unit, n, tail, e) ==
  LET good == unit # <<>> /\ Len(unit) % 4 = 0 /\ InAlphabet(unit) /\ IsEncoding(tail)
      one == Bytes(unit)  last == Bytes(Body(tail))
  IN IF good THEN /\ e.r = "ok" /\ e.size = n * Len(one) + Len(last)
                  /\ e.blocks = n /\ (n = 0 \/ e.first = one) /\ e.rest = last
     ELSE IF InAlphabet(unit) /\ Len(unit) % 4 = 0 /\ BadLength(tail) THEN e.r = "invalid_argument"
     ELSE e.r = "invalid_argument" \/ (e.r = "ok" /\ e.size * 4 <= (n * Len(unit) + Len(tail)) * 3)

-----------------------------------------------------------------------------
VARIABLE ok
vars == <<ok>>
Init == ok = TRUE
Step(e) == /\ UNCHANGED ok
           /\ \/ e.op = "reset"
              \/ e.op = "dec64" /\ Allowed(e.t, e.r, e.v) = TRUE
              \/ e.op = "decrep" /\ Repeated(e.unit, e.n, e.tail, e) = TRUE
=============================================================================
