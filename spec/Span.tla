-------------------------------- MODULE Span ---------------------------------
(* Windows on a block of memory (property C25).                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES mem, win   \* win: slot -> [off, len]
vars == <<mem, win>>
Slots == 0..2
Nowhere == [off |-> 0, len |-> 0]
Init == mem = <<>> /\ win = [s \in Slots |-> Nowhere]
Elems(w) == SubSeq(mem, w.off + 1, w.off + w.len)
Sub(w, o, c) == [off |-> w.off + o, len |-> c]
Rest(w, o) == [off |-> w.off + o, len |-> w.len - o]
\* the pointer p elements after the start of the block lies within the window
Within(w, p) == w.off <= p /\ p < w.off + w.len
RECURSIVE Lex(_, _)
Lex(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
             ELSE IF Head(a) < Head(b) THEN TRUE ELSE IF Head(b) < Head(a) THEN FALSE ELSE Lex(Tail(a), Tail(b))
Becomes(s, w) == win' = [win EXCEPT ![s] = w] /\ UNCHANGED mem
Digits(q) == [i \in 1..Len(q) |-> 48 + q[i]]
\* up to the first zero
Terminated(t) == IF \E i \in 1..Len(t) : t[i] = 0 THEN SubSeq(t, 1, (CHOOSE i \in 1..Len(t) : t[i] = 0 /\ \A j \in 1..(i - 1) : t[j] # 0) - 1) ELSE t
-----------------------------------------------------------------------------
\* numbers in base 2^20 of four digits, least significant last
B == 1048576
Add(x, y) == LET d4 == x[4] + y[4] d3 == x[3] + y[3] + (d4 \div B) d2 == x[2] + y[2] + (d3 \div B) d1 == x[1] + y[1] + (d2 \div B)
             IN <<d1, d2 % B, d3 % B, d4 % B>>
Times(x, k) == LET d4 == x[4] * k d3 == (x[3] * k) + (d4 \div B) d2 == (x[2] * k) + (d3 \div B) d1 == (x[1] * k) + (d2 \div B)
               IN <<d1, d2 % B, d3 % B, d4 % B>>
One == <<0, 0, 0, 1>>
\* where the span is, by what it says itself; an empty one may be anywhere
Is(e, w) == e.len = w.len /\ (w.len > 0 => e.off = w.off)
Step(e) ==
  \/ e.op = "reset" /\ mem' = <<>> /\ win' = [s \in Slots |-> Nowhere]
  \/ e.op = "mem" /\ mem' = e.m /\ win' = [s \in Slots |-> Nowhere]
  \/ e.op = "whole" /\ Becomes(e.s, [off |-> 0, len |-> Len(mem)]) /\ Is(e, win'[e.s]) = TRUE
  \/ e.op = "none" /\ Becomes(e.s, Nowhere) /\ Is(e, win'[e.s]) = TRUE
  \/ e.op = "copy" /\ Becomes(e.s, win[e.a]) /\ Is(e, win'[e.s]) = TRUE
  \/ e.op = "sub" /\ Becomes(e.s, Sub(win[e.a], e.o, e.c)) /\ Is(e, win'[e.s]) = TRUE
  \/ e.op = "rest" /\ Becomes(e.s, Rest(win[e.a], e.o)) /\ Is(e, win'[e.s]) = TRUE
  \/ /\ e.op = "query" /\ UNCHANGED vars
     /\ LET w == win[e.s] x == Elems(w) IN
        (/\ e.size = w.len /\ e.empty = (w.len = 0) /\ e.bytes = w.len * e.unit
         /\ e.indexed = x /\ e.forward = x /\ e.backward = Reverse(x) /\ e.vector = x
         /\ (w.len > 0 => e.front = x[1] /\ e.back = x[w.len])
         /\ (e.printed => e.text = Digits(x))) = TRUE
  \/ /\ e.op = "at" /\ UNCHANGED vars
     /\ LET w == win[e.s] IN
        (IF e.i < w.len THEN e.r = "ok" /\ e.v = Elems(w)[e.i + 1] ELSE e.r = "out_of_range") = TRUE
  \/ /\ e.op = "write" /\ mem' = [mem EXCEPT ![win[e.s].off + e.i + 1] = e.v] /\ UNCHANGED win
     /\ mem' = e.m
  \/ e.op = "overlaps" /\ UNCHANGED vars /\ e.res = Within(win[e.s], e.p)
  \/ /\ e.op = "compare" /\ UNCHANGED vars
     /\ LET x == Elems(win[e.s]) y == Elems(win[e.a]) IN
        /\ e.eq = (x = y) /\ e.ne = (x # y) /\ e.lt = Lex(x, y) /\ e.ge = ~Lex(x, y) /\ e.gt = Lex(y, x) /\ e.le = ~Lex(y, x)
  \* a text and the views on it which the conversions give, the last from its terminated form
  \/ /\ e.op = "text" /\ UNCHANGED vars
     /\ (\A i \in 1..Len(e.views) : e.views[i] = e.t) = TRUE
     /\ (\A i \in 1..Len(e.terminated) : e.terminated[i] = Terminated(e.t)) = TRUE
  \* windows larger than memory: n elements, c of them from o on, and all from o on
  \/ /\ e.op = "huge" /\ UNCHANGED vars
     /\ e.size = e.n /\ e.bytes = Times(e.n, e.unit) /\ e.sub = e.c /\ Add(e.rest, e.o) = e.n
     /\ e.sub_at = e.o /\ e.rest_at = e.o /\ e.sub_end = Add(e.o, e.c) /\ e.rest_end = e.n /\ Add(e.last_at, One) = e.n
     /\ e.last /\ e.beyond /\ e.overlaps /\ ~e.overlaps_beyond
  \* through containers of the same elements
  \/ e.op = "conversions" /\ UNCHANGED vars /\ (\A i \in 1..Len(e.views) : e.views[i] = mem) = TRUE /\ e.same = TRUE
=============================================================================
