-------------------------------- MODULE Ticks --------------------------------
(* The tick count (property C33): the system's clock in milliseconds, kept in    *)
(* 32 bits.  The clock is [d, n]: d the decimal digits of the seconds since the *)
(* clock's epoch, n the nanoseconds of the running second.  Tick counts are     *)
(* pairs of 16 bit halves <<low, high>>.                                        *)
EXTENDS Integers, Sequences, SequencesExt, TLC
H == 65536 \* number of values of a half
VARIABLES clock, ticks \* the ticks read last
vars == <<clock, ticks>>
\* h * k + c for a pair of halves, modulo H^2, with 0 <= k <= 1000
MulAdd(h, k, c) == LET lo == h[1] * k + c
                       hi == h[2] * k + (lo \div H)
                   IN <<lo % H, hi % H>>
Plus(h, c) == MulAdd(h, 1, c)
\* modulo H^2
Minus(g, h) == LET lo == g[1] - h[1] IN <<lo % H, ((g[2] - h[2]) - (IF lo < 0 THEN 1 ELSE 0)) % H>>
Seconds(d) == FoldLeft(LAMBDA a, x : MulAdd(a, 10, x), <<0, 0>>, d)
Count(c) == MulAdd(Seconds(c.d), 1000, c.n \div 1000000)
Init == clock = [d |-> <<0>>, n |-> 0] /\ ticks = <<0, 0>>
-----------------------------------------------------------------------------
Step(e) ==
  \/ e.op = "reset" /\ clock' = [d |-> <<0>>, n |-> 0] /\ ticks' = <<0, 0>>
  \/ e.op = "clock" /\ clock' = [d |-> e.d, n |-> e.n] /\ UNCHANGED ticks
  \/ e.op = "ticks" /\ e.r = Count(clock) /\ ticks' = e.r /\ UNCHANGED clock
  \* the difference of two tick counts taken as 32 bit numbers
  \/ e.op = "elapsed" /\ e.r = Minus(Count(clock), ticks) /\ ticks' = Count(clock) /\ UNCHANGED clock
=============================================================================
