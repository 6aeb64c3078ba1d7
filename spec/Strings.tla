------------------------------- MODULE Strings ------------------------------
(* Splitting, joining, concatenating, trimming, prefix and suffix tests      *)
(* (properties C06 and C11).  Texts are sequences of character codes.        *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Space == {32, 9, 10, 11, 12, 13}

\* pieces between delimiters
Split(t, d) == FoldLeft(LAMBDA acc, c : IF c = d THEN Append(acc, <<>>)
                                        ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)], << <<>> >>, t)
Join(l, d) == IF l = <<>> THEN <<>> ELSE FoldLeft(LAMBDA acc, s : Append(acc, d) \o s, Head(l), Tail(l))

\* maximal runs of non-whitespace
WordFeed(st, c) == IF c \in Space THEN (IF st.cur = <<>> THEN st ELSE [done |-> Append(st.done, st.cur), cur |-> <<>>])
                   ELSE [st EXCEPT !.cur = Append(@, c)]
Words(t) == LET r == FoldLeft(WordFeed, [done |-> <<>>, cur |-> <<>>], t)
            IN IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)

\* decimal digits
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
DecText(n) == IF n >= 0 THEN Digits(n) ELSE <<45>> \o (IF n = -2147483647 - 1 THEN Digits(214748364) \o <<56>> ELSE Digits(-n))
CatText(l) == FoldLeft(LAMBDA acc, a : acc \o (IF a.num THEN DecText(a.n) ELSE a.t), <<>>, l)

\* number of whitespace characters at the front, the back
FrontSpaces(t) == FoldLeft(LAMBDA st, c : IF st.stop \/ c \notin Space THEN [st EXCEPT !.stop = TRUE] ELSE [st EXCEPT !.n = @ + 1],
                           [n |-> 0, stop |-> FALSE], t).n
BackSpaces(t) == FrontSpaces(Reverse(t))
\* position and length of what is left (an empty rest has no position)
Pos(o, n) == IF n = 0 THEN <<0, 0>> ELSE <<o, n>>
TrimFront(t) == Pos(FrontSpaces(t), Len(t) - FrontSpaces(t))
TrimBack(t) == Pos(0, Len(t) - BackSpaces(t))
TrimBoth(t) == IF FrontSpaces(t) = Len(t) THEN <<0, 0>> ELSE Pos(FrontSpaces(t), Len(t) - FrontSpaces(t) - BackSpaces(t))

StartsWith(t, o) == Len(o) <= Len(t) /\ SubSeq(t, 1, Len(o)) = o
EndsWith(t, o) == Len(o) <= Len(t) /\ SubSeq(t, Len(t) - Len(o) + 1, Len(t)) = o

-----------------------------------------------------------------------------
(* Concatenated values may change the formatting of what follows, in the same concatenation only: base, show base, show sign, upper case,
   names of truth values, adjustment, width (of the next value only), filling character; nothing is written after a failure. *)
Plain == [base |-> 10, flags |-> {}, adjust |-> 0, width |-> 0, fill |-> 32, fail |-> FALSE, out |-> <<>>]
RECURSIVE InBase(_, _)
InBase(n, b) == LET d == n % b c == IF d < 10 THEN 48 + d ELSE 87 + d IN IF n < b THEN <<c>> ELSE Append(InBase(n \div b, b), c)
Capital(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]
\* sign or prefix, and digits (numbers which are not decimal are not negative here)
NumberParts(st, n) ==
  IF st.base = 10 THEN IF n < 0 THEN <<<<45>>, Tail(DecText(n))>> ELSE <<IF 1 \in st.flags THEN <<43>> ELSE <<>>, Digits(n)>>
  ELSE LET pre == IF 0 \in st.flags /\ n # 0 THEN (IF st.base = 16 THEN <<48, 120>> ELSE <<48>>) ELSE <<>>
       IN IF 2 \in st.flags THEN <<Capital(pre), Capital(InBase(n, st.base))>> ELSE <<pre, InBase(n, st.base)>>
Filled(st, pre, body) ==
  LET pad == [i \in 1..(IF st.width > Len(pre) + Len(body) THEN st.width - Len(pre) - Len(body) ELSE 0) |-> st.fill]
  IN CASE st.adjust = 1 -> pre \o body \o pad [] st.adjust = 2 -> pre \o pad \o body [] OTHER -> pad \o pre \o body
\* an octal prefix is part of the digits
Put(st, pre, body) == [st EXCEPT !.out = @ \o (IF st.base = 8 /\ pre = <<48>> THEN Filled(st, <<>>, pre \o body) ELSE Filled(st, pre, body)), !.width = 0]
PutNumber(st, n) == LET p == NumberParts(st, n) IN Put(st, p[1], p[2])
Feed(st, a) ==
  IF st.fail /\ a.k \in {"int", "bool", "text", "char"} THEN st
  ELSE CASE a.k = "int" -> PutNumber(st, a.n)
         [] a.k = "bool" -> IF 3 \in st.flags THEN Put(st, <<>>, IF a.n = 0 THEN <<102, 97, 108, 115, 101>> ELSE <<116, 114, 117, 101>>) ELSE PutNumber(st, a.n)
         [] a.k \in {"text", "char"} -> Put(st, <<>>, a.t)
         [] a.k = "base" -> [st EXCEPT !.base = a.n]
         [] a.k = "set" -> [st EXCEPT !.flags = @ \cup {a.n}]
         [] a.k = "unset" -> [st EXCEPT !.flags = @ \ {a.n}]
         [] a.k = "adjust" -> [st EXCEPT !.adjust = a.n]
         [] a.k = "width" -> [st EXCEPT !.width = a.n]
         [] a.k = "fill" -> [st EXCEPT !.fill = a.n]
         [] a.k = "bad" -> [st EXCEPT !.fail = TRUE]
StyledText(l) == FoldLeft(Feed, Plain, l).out

-----------------------------------------------------------------------------
VARIABLE ok
vars == <<ok>>
Init == ok = TRUE
Step(e) ==
  /\ UNCHANGED ok
  /\ \/ e.op = "reset"
     \/ e.op = "split" /\ e.res = <<Split(e.t, e.d)>>      \* all overloads gave the same, and that is it
     \/ e.op = "rejoin" /\ e.res = <<e.t>>
     \/ e.op = "words" /\ e.res = Words(e.t)
     \/ e.op = "join" /\ e.res = <<Join(e.l, e.d)>>
     \/ e.op = "cat" /\ e.res = <<CatText(e.a)>>
     \/ e.op = "styled" /\ e.res = StyledText(e.a)
     \/ e.op = "trim" /\ e.f = <<TrimFront(e.t)>> /\ e.k = <<TrimBack(e.t)>> /\ e.m = <<TrimBoth(e.t)>>
     \/ e.op = "fix" /\ e.starts = StartsWith(e.t, e.o) /\ e.ends = EndsWith(e.t, e.o)
=============================================================================
