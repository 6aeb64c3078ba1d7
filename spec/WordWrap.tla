------------------------------ MODULE WordWrap ------------------------------
(* Word wrapping (property C07): which lists of lines are allowed for a text *)
(* and a width.  Positions are 0-based, a line occupies [p, q) of the text.  *)
EXTENDS Integers, Sequences, SequencesExt, TLC

At(t, i) == t[i + 1]                                  \* character at position i
\* first position from a on where the text ends or the predicate holds
First(t, a, P(_)) == LET hits == {k \in a..(Len(t) - 1) : P(At(t, k))}
                     IN IF hits = {} THEN Len(t) ELSE CHOOSE k \in hits : \A m \in hits : k <= m
NonBlank(t, a) == First(t, a, LAMBDA c : c # 32)      \* after the spaces at a
Blank(t, a, b) == b <= NonBlank(t, a)
\* [a, b) consists of spaces and exactly one newline
OneNewline(t, a, b) == LET n == NonBlank(t, a) IN n < Len(t) /\ At(t, n) = 10 /\ n < b /\ Blank(t, n + 1, b)

\* end of the first word at or after position i (not beyond a newline or the end of the text)
EndOf(t, i) == IF i >= Len(t) \/ At(t, i) = 10 THEN i
               ELSE LET g == NonBlank(t, i) IN IF g >= Len(t) \/ At(t, g) = 10 THEN g ELSE First(t, g, LAMBDA c : c = 32 \/ c = 10)

\* a line broken by wrapping: not empty, and either full or ended at a space where the next word would reach the width
WrapOk(t, w, p, q) == /\ q > p
                      /\ \/ q - p = w
                         \/ q < Len(t) /\ At(t, q) = 32 /\ EndOf(t, q) - p >= w
\* a line ended by a newline or the end of the text: empty only if that line of the text is empty
LastOk(t, p, q) == q > p \/ ((p = 0 \/ At(t, p - 1) = 10) /\ (q = Len(t) \/ At(t, q) = 10))

Matches(t, p, line) == p + Len(line) <= Len(t) /\ \A i \in 1..Len(line) : t[p + i] = line[i]

\* places <<p, q>> where a line can lie, given the set of places of the line before (<<>>: no line yet)
Follow(t, w, prev, line) ==
  LET Within(a, b) == {p \in a..b : Matches(t, p, line)}
      From(x) == IF x = <<>> THEN Within(0, NonBlank(t, 0))
                 ELSE LET f == NonBlank(t, x[2]) IN
                      (IF WrapOk(t, w, x[1], x[2]) THEN Within(x[2], f) ELSE {})
                      \cup (IF f < Len(t) /\ At(t, f) = 10 /\ LastOk(t, x[1], x[2]) THEN Within(f + 1, NonBlank(t, f + 1)) ELSE {})
  IN {<<p, p + Len(line)>> : p \in UNION {From(x) : x \in prev}}

Allowed(t, w, lines) ==
  IF w = 0 THEN lines = <<t>>
  ELSE /\ \A i \in DOMAIN lines : Len(lines[i]) <= w /\ \A j \in DOMAIN lines[i] : lines[i][j] # 10
       /\ IF lines = <<>> THEN Blank(t, 0, Len(t))
          ELSE LET final == FoldLeft(LAMBDA acc, ln : Follow(t, w, acc, ln), {<<>>}, lines)
               IN \E x \in final : (Blank(t, x[2], Len(t)) \/ OneNewline(t, x[2], Len(t))) /\ LastOk(t, x[1], x[2])

-----------------------------------------------------------------------------
VARIABLE ok
vars == <<ok>>
Init == ok = TRUE
Step(e) == /\ UNCHANGED ok
           /\ \/ e.op = "reset"
              \/ e.op = "wrap" /\ Allowed(e.t, e.w, e.res) = TRUE
=============================================================================
