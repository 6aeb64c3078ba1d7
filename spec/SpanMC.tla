------------------------------- MODULE SpanMC --------------------------------
EXTENDS Span
CONSTANT MaxLen
VARIABLE last
S == <<vars, last>>
T(x) == ToString(x)
RECURSIVE Txt(_)
Txt(q) == IF q = <<>> THEN "" ELSE " " \o T(Head(q)) \o Txt(Tail(q))
MCInit == /\ \E n \in 0..MaxLen : \E m \in [1..n -> {1, 2}] : mem = m
          /\ win = [s \in Slots |-> Nowhere] /\ last = "mem i" \o Txt(mem)
Used == {0, 1}
MCNext ==
  \/ \E s \in Used : Becomes(s, [off |-> 0, len |-> Len(mem)]) /\ last' = "whole " \o T(s)
  \/ \E s, a \in Used : \E o \in 0..win[a].len :
       \/ Becomes(s, Rest(win[a], o)) /\ last' = "rest " \o T(s) \o " " \o T(a) \o " " \o T(o)
       \/ \E c \in 0..(win[a].len - o) : Becomes(s, Sub(win[a], o, c)) /\ last' = "sub " \o T(s) \o " " \o T(a) \o " " \o T(o) \o " " \o T(c)
  \/ \E s \in Used : UNCHANGED vars /\ last' = "q " \o T(s)
  \/ \E s \in Used : \E i \in 0..(MaxLen + 1) : UNCHANGED vars /\ last' = "at " \o T(s) \o " " \o T(i)
  \/ \E s \in Used : \E p \in -1..(MaxLen + 1) : UNCHANGED vars /\ last' = "ov " \o T(s) \o " " \o T(p)
  \/ UNCHANGED vars /\ last' = "cmp 0 1"
MCSpec == MCInit /\ [][MCNext]_S
\* never outside of the block
Inside == \A s \in Slots : win[s].off >= 0 /\ win[s].len >= 0 /\ win[s].off + win[s].len <= Len(mem)
\* a window of a window is a window
Nested == LET w == win[0] IN \A o \in 0..w.len : \A c \in 0..(w.len - o) :
            /\ Elems(Sub(w, o, c)) = SubSeq(Elems(w), o + 1, o + c) /\ Elems(Rest(w, o)) = SubSeq(Elems(w), o + 1, w.len)
            /\ \A o2 \in 0..c : Rest(Sub(w, o, c), o2) = Sub(w, o + o2, c - o2)
            /\ \A p \in 0..Len(mem) : Within(Sub(w, o, c), p) => Within(w, p)
WithinExact == \A p \in -1..(MaxLen + 1) : Within(win[0], p) = (\E i \in 0..(win[0].len - 1) : p = win[0].off + i)
\* comparison is a total order, consistent with equality
Total == LET x == Elems(win[0]) y == Elems(win[1]) IN
         Cardinality({c \in {"lt", "eq", "gt"} : (c = "lt" /\ Lex(x, y)) \/ (c = "eq" /\ x = y) \/ (c = "gt" /\ Lex(y, x))}) = 1
=============================================================================
