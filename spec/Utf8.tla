-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 as utki defines it: code points up to 2^31-1, sequences of 1..6     *)
(* bytes (properties C01 and C02).                                           *)
EXTENDS Integers, Sequences, SequencesExt, TLC

MaxCP == 2147483647

\* number of bytes of the shortest sequence for code point c
Size(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3
           ELSE IF c < 2097152 THEN 4 ELSE IF c < 67108864 THEN 5 ELSE 6
\* smallest and largest code point with an n byte sequence
MinOf(n) == <<1, 128, 2048, 65536, 2097152, 67108864>>[n]
MaxOf(n) == <<127, 2047, 65535, 2097151, 67108863, MaxCP>>[n]

LeadConst(n) == <<0, 192, 224, 240, 248, 252>>[n]
LeadMask(n)  == <<127, 31, 15, 7, 3, 1>>[n]

\* byte i of an n byte sequence: constant bits, shift and mask of the code point bits it carries
Layout(n) == [i \in 1..n |-> IF i = 1 THEN <<LeadConst(n), 6 * (n - 1), LeadMask(n)>> ELSE <<128, 6 * (n - i), 63>>]

Pow2(k) == 2 ^ k
Encode(c) == LET n == Size(c) IN
  [i \in 1..n |-> LET f == Layout(n)[i] IN f[1] + ((c \div Pow2(f[2])) % (f[3] + 1))]

EncodeAll(cs) == FoldLeft(LAMBDA acc, c : acc \o Encode(c), <<>>, cs)

-----------------------------------------------------------------------------
\* Decoder automaton.  mode: "run" (between characters or inside one), "zero" (a zero character ended the text),
\* "bad" (malformed, what follows is not specified).
Start == [out |-> <<>>, need |-> 0, acc |-> 0, n |-> 0, mode |-> "run"]

LeadN(b) == IF b < 194 THEN 0 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE IF b < 248 THEN 4
            ELSE IF b < 252 THEN 5 ELSE IF b < 254 THEN 6 ELSE 0

Feed(st, b) ==
  IF st.mode # "run" THEN st
  ELSE IF st.need = 0 THEN
         IF b = 0 THEN [st EXCEPT !.mode = "zero"]
         ELSE IF b < 128 THEN [st EXCEPT !.out = Append(@, b)]
         ELSE IF LeadN(b) = 0 THEN [st EXCEPT !.mode = "bad"]
         ELSE [st EXCEPT !.need = LeadN(b) - 1, !.n = LeadN(b), !.acc = b - LeadConst(LeadN(b))]
  ELSE IF b < 128 \/ b > 191 THEN [st EXCEPT !.mode = "bad"]
  ELSE LET a == st.acc * 64 + (b - 128) IN
         IF st.need > 1 THEN [st EXCEPT !.need = @ - 1, !.acc = a]
         ELSE IF a < MinOf(st.n) THEN [st EXCEPT !.mode = "bad"]
         ELSE [st EXCEPT !.need = 0, !.acc = 0, !.n = 0, !.out = Append(@, a)]

Decode(bytes) == FoldLeft(Feed, Start, bytes)

\* is `chars` an allowed result of decoding `bytes`?
DecodeOk(bytes, chars) ==
  LET st == Decode(bytes) IN
  IF st.mode = "bad" THEN IsPrefix(st.out, chars) /\ Len(chars) <= Len(bytes)
  ELSE chars = st.out

-----------------------------------------------------------------------------
VARIABLE ok      \* the conversions have no state of their own
vars == <<ok>>
Init == ok = TRUE

Step(e) ==
  /\ UNCHANGED ok
  /\ \/ e.op = "reset"
     \/ e.op = "enc" /\ e.c \in 1..MaxCP /\ e.b = Encode(e.c)
     \/ e.op = "encs" /\ e.b = EncodeAll(e.cs)
     \/ e.op = "dec" /\ e.res # <<>> /\ \A i \in DOMAIN e.res : DecodeOk(e.t, e.res[i]) = TRUE
     \/ e.op = "scan" /\ e.bad = 0 /\ e.lay = Layout(e.n) /\ MinOf(e.n) <= e.lo /\ e.lo <= e.hi /\ e.hi <= MaxOf(e.n)
=============================================================================
