------------------------------ MODULE TicksMC -------------------------------
(* A clock running through several wraps of the tick count: the count is the    *)
(* number of milliseconds modulo its range, and elapsed times shorter than the   *)
(* range come out right across a wrap.                                          *)
EXTENDS Ticks
CONSTANTS Latest, Jumps
Small == 16
VARIABLES s, ms, before
mvars == <<vars, s, ms, before>>
RECURSIVE DigitsOf(_)
DigitsOf(x) == IF x < 10 THEN <<x>> ELSE Append(DigitsOf(x \div 10), x % 10)
MCInit == Init /\ s = 0 /\ ms = 0 /\ before = 0
Advance == \E j \in Jumps : LET t == 1000 * s + ms + j IN
  /\ t <= Latest /\ t - before < H * H /\ s' = t \div 1000 /\ ms' = t % 1000
  /\ Step([op |-> "clock", d |-> DigitsOf(s'), n |-> ms' * 1000000 + 999999]) /\ UNCHANGED before
Read == Step([op |-> "ticks", r |-> Count(clock)]) /\ before' = 1000 * s + ms /\ UNCHANGED <<s, ms>>
MCSpec == MCInit /\ [][Advance \/ Read]_mvars
Exact == ticks = <<before % H, (before \div H) % H>>
Elapsed == LET d == 1000 * s + ms - before IN Minus(Count(clock), ticks) = <<d % H, (d \div H) % H>>
=============================================================================
