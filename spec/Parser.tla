------------------------------- MODULE Parser -------------------------------
(* utki::string_parser: a cursor over a text (property C08).                 *)
EXTENDS Integers, Sequences, SequencesExt, TLC

VARIABLES text, pos          \* the whole text; number of characters consumed
vars == <<text, pos>>

Space == {32, 10, 9, 13, 11, 12}
Left == Len(text) - pos
Ch(k) == text[pos + k]       \* k-th unread character, from 1

\* number of unread characters before the first one for which stop holds (all if there is none)
Run(Stop(_)) == LET hits == {k \in 1..Left : Stop(Ch(k))}
                IN IF hits = {} THEN Left ELSE (CHOOSE k \in hits : \A m \in hits : k <= m) - 1

\* whitespace and at most one comma, in any order
CommaRun == LET bad == {k \in 1..Left : \/ Ch(k) \notin Space \cup {44}
                                        \/ Ch(k) = 44 /\ \E m \in 1..(k - 1) : Ch(m) = 44}
            IN IF bad = {} THEN Left ELSE (CHOOSE k \in bad : \A m \in bad : k <= m) - 1

Incl(n) == IF n < Left THEN n + 1 ELSE n        \* including the character that stopped
NoView == [c |-> -1, len |-> 0, r |-> "ok"]

\* what each operation does: n characters are consumed; c: character returned (-1: none); len: length of the returned view
Effect(op, a) ==
  CASE op = "ws"     -> [n |-> Run(LAMBDA x : x \notin Space), res |-> NoView]
    [] op = "wsc"    -> [n |-> CommaRun, res |-> NoView]
    [] op = "until"  -> [n |-> Incl(Run(LAMBDA x : x = a[1])), res |-> NoView]
    [] op = "oneof"  -> LET k == Run(LAMBDA x : \E i \in DOMAIN a : a[i] = x)
                        IN [n |-> Incl(k), res |-> [NoView EXCEPT !.c = IF k < Left THEN Ch(k + 1) ELSE 0]]
    [] op = "word"   -> LET k == Run(LAMBDA x : x \in Space) IN [n |-> k, res |-> [NoView EXCEPT !.len = k]]
    [] op = "wordu"  -> LET k == Run(LAMBDA x : x \in Space \/ x = a[1]) IN [n |-> k, res |-> [NoView EXCEPT !.len = k]]
    [] op = "charsu" -> LET k == Run(LAMBDA x : x = a[1]) IN [n |-> k, res |-> [NoView EXCEPT !.len = k]]
    [] op = "chars"  -> LET k == IF a[1] < Left THEN a[1] ELSE Left IN [n |-> k, res |-> [NoView EXCEPT !.len = k]]
    [] op = "ch"     -> IF Left = 0 THEN [n |-> 0, res |-> [NoView EXCEPT !.r = "invalid_argument"]]
                        ELSE [n |-> 1, res |-> [NoView EXCEPT !.c = Ch(1)]]
    [] op = "peek"   -> IF Left = 0 THEN [n |-> 0, res |-> [NoView EXCEPT !.r = "invalid_argument"]]
                        ELSE [n |-> 0, res |-> [NoView EXCEPT !.c = Ch(1)]]
    [] op = "peekn"  -> IF a[1] >= Left THEN [n |-> 0, res |-> [NoView EXCEPT !.r = "invalid_argument"]]
                        ELSE [n |-> 0, res |-> [NoView EXCEPT !.c = Ch(a[1] + 1)]]

Ops == {"ws", "wsc", "until", "oneof", "word", "wordu", "charsu", "chars", "ch", "peek", "peekn"}

Do(op, a) == pos' = pos + Effect(op, a).n /\ UNCHANGED text
Load(t) == text' = t /\ pos' = 0
Init == text = <<>> /\ pos = 0

Step(e) ==
  \/ e.op = "reset" /\ Load(<<>>)
  \/ e.op = "text" /\ Load(e.t)
  \/ e.op = "isspace" /\ e.res = (e.c \in Space) /\ UNCHANGED vars
  \/ /\ e.op \in Ops
     /\ LET x == Effect(e.op, e.a).res IN
          /\ e.r = x.r /\ e.c = x.c /\ e.len = x.len
          /\ e.off = IF x.len > 0 THEN pos ELSE -2       \* the returned view starts at the cursor
     /\ Do(e.op, e.a)
     /\ e.left = Len(text) - pos' /\ e.size = e.left /\ e.empty = (e.left = 0)
     /\ e.pos = IF e.left > 0 THEN pos' ELSE -2          \* the unread text starts at the new cursor
=============================================================================
