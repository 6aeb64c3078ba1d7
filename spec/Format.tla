------------------------------- MODULE Format -------------------------------
(* printf-style formatting of the directives used by the driver, and         *)
(* indentation strings (property C12).                                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Printf

RECURSIVE Digits(_, _)
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Digits(n, b) == IF n < b THEN <<Digit(n)>> ELSE Append(Digits(n \div b, b), Digit(n % b))
Dec(n) == IF n >= 0 THEN Digits(n, 10) ELSE <<45>> \o Digits(-n, 10)
Rep(c, n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
Max2(a, b) == IF a > b THEN a ELSE b

\* %*d: padded on the left with spaces (on the right for a negative width), %-*d on the right, %0*d with zeros after the sign
Right(t, w) == Rep(32, w - Len(t)) \o t
Left(t, w) == t \o Rep(32, w - Len(t))
StarD(w, n) == IF w >= 0 THEN Right(Dec(n), w) ELSE Left(Dec(n), -w)
MinusD(w, n) == Left(Dec(n), IF w >= 0 THEN w ELSE -w)
ZeroD(w, n) == IF w < 0 THEN Left(Dec(n), -w)
               ELSE IF n >= 0 THEN Rep(48, w - Len(Dec(n))) \o Dec(n)
               ELSE <<45>> \o Rep(48, w - Len(Dec(n))) \o Tail(Dec(n))
\* %.*s
Prec(p, t) == IF p < 0 \/ p >= Len(t) THEN t ELSE SubSeq(t, 1, p)
\* %.1f of n/2
Half(n) == (IF n < 0 THEN <<45>> ELSE <<>>) \o Digits((IF n < 0 THEN -n ELSE n) \div 2, 10) \o <<46, IF n % 2 = 0 THEN 48 ELSE 53>>
Plain == <<112,108,97,105,110,32,116,101,120,116,44,32,110,111,32,97,114,103,117,109,101,110,116,115>>

Render(k, ss, ns) ==
  CASE k = 1 -> ss[1]
    [] k = 2 -> ss[1] \o <<32>> \o Dec(ns[1]) \o <<32>> \o ss[2]
    [] k = 3 -> Dec(ns[1]) \o Digits(ns[2], 10) \o Digits(ns[3], 16) \o <<ns[4]>> \o <<37>>
    [] k = 4 -> StarD(ns[1], ns[2]) \o <<124>> \o MinusD(ns[3], ns[4]) \o <<124>> \o ZeroD(ns[5], ns[6])
    [] k = 5 -> Plain
    [] k = 6 -> <<60>> \o Prec(ns[1], ss[1]) \o <<62>>
    [] k = 7 -> FoldLeft(LAMBDA acc, i : acc \o ss[i] \o Dec(ns[i]), <<>>, <<1, 2, 3, 4, 5, 6>>)
    [] k = 8 -> Half(ns[1]) \o <<47>> \o Dec(ns[2]) \o <<47>> \o Half(ns[3]) \o <<47>> \o ss[1] \o <<47>> \o Half(ns[4])
    [] k = 9 -> Dec(ns[1]) \o <<ns[2]>> \o ss[1] \o Digits(ns[3], 10)
    [] k = 10 -> <<>>

-----------------------------------------------------------------------------
(* Indentation: depth and size are given as <<high, low>> 16 bit halves.     *)
Small(x) == x[1] = 0
Value(x) == x[1] * 65536 + x[2]          \* only for x[1] < 32768
\* number of characters, or -1 when it is too large for TLC (and too large to be built here)
Total(d, s) == IF s = <<0, 0>> THEN (IF d[1] < 30000 THEN Value(d) ELSE -1)
               ELSE IF d = <<0, 0>> THEN 0
               ELSE IF Small(d) /\ Small(s) /\ (d[2] < 32768 \/ s[2] < 32768) THEN d[2] * s[2]
               ELSE IF d[1] < 16 /\ Small(s) /\ s[2] <= 1000 THEN Value(d) * s[2]
               ELSE -1
IndentOk(e) ==
  LET n == Total(e.d, e.s) IN
  IF n = -1 THEN e.r = "error" \/ e.n = 2000000000      \* it must not silently produce something shorter
  ELSE e.r = "ok" /\ e.n = n /\ (n > 0 => e.same /\ e.c = IF e.s = <<0, 0>> THEN 9 ELSE 32)

-----------------------------------------------------------------------------
VARIABLE ok
vars == <<ok>>
Init == ok = TRUE
Step(e) == /\ UNCHANGED ok
           /\ \/ e.op = "reset"
              \/ e.op = "fmt" /\ e.res = <<Render(e.k, e.ss, e.ns)>>
              \/ /\ e.op = "printf"
                 /\ (IF Impossible(e.args) THEN e.r = "logic_error" /\ e.res = <<>>
                     ELSE e.r = "ok" /\ Len(e.res) = 2 /\ LET t == Formatted(e.fmt, e.args) IN \A i \in 1..Len(e.res) : e.res[i] = t) = TRUE
              \/ e.op = "indent" /\ IndentOk(e) = TRUE
=============================================================================
