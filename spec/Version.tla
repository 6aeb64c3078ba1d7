------------------------------- MODULE Version -------------------------------
(* Major.minor versions (property C29): v = <<major, minor>>, 16 bits each.     *)
EXTENDS Integers, Sequences, SequencesExt, TLC
VARIABLE seen \* greatest version seen so far
vars == <<seen>>
Init == seen = <<0, 0>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* the packed number as its four bytes, least significant first: minor below, major above
Packed(v) == <<v[2] % 256, v[2] \div 256, v[1] % 256, v[1] \div 256>>
\* order of numbers given as bytes
NumLess(x, y) == \E i \in 1..4 : x[i] < y[i] /\ \A j \in (i + 1)..4 : x[j] = y[j]
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Text(v) == Digits(v[1]) \o <<46>> \o Digits(v[2])
Newer(a, b) == IF Less(a, b) THEN b ELSE a
-----------------------------------------------------------------------------
Step(e) ==
  \/ e.op = "reset" /\ seen' = <<0, 0>>
  \/ e.op = "pair" /\ UNCHANGED seen /\ e.lt = Less(e.a, e.b) /\ e.ge = ~Less(e.a, e.b)
     /\ e.pa = Packed(e.a) /\ e.pb = Packed(e.b) /\ e.plt = Less(e.a, e.b)
  \/ e.op = "text" /\ UNCHANGED seen /\ e.text = Text(e.v) /\ e.around = <<60>> \o Text(e.v) \o <<62>>
  \/ e.op = "see" /\ seen' = Newer(seen, e.v) /\ e.max = Newer(seen, e.v)
  \/ e.op = "sort" /\ UNCHANGED seen
     /\ (/\ \A i \in 1..(Len(e.out) - 1) : ~Less(e.out[i + 1], e.out[i])
         /\ Len(e.in) = Len(e.out) /\ \A i \in 1..Len(e.in) : \E j \in 1..Len(e.out) : e.in[i] = e.out[j]) = TRUE
=============================================================================
