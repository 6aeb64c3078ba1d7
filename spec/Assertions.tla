----------------------------- MODULE Assertions ------------------------------
(* Programs made of assertions and log statements, run in a process of their    *)
(* own (property C28).  Statement: [k, always, holds, fun, says, text, loc]      *)
(*   k "assert": always - also outside of debug builds; holds; fun - the        *)
(*     condition is a function; says - a message is supplied; text; loc         *)
(*   k "log": always; text; says - FALSE: no function is given                  *)
(*   k "run": a procedure for debug builds; says as for log                     *)
(* What a process does is observed as a sequence of marks: "c" condition        *)
(* evaluated, "p" message or text asked for, "k" statement left, with what has  *)
(* arrived at standard output so far.                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLE runs
vars == <<runs>>
Init == runs = 0
On(debug, st) == st.always \/ debug
\* what happens from statement i on, n bytes written so far
RECURSIVE Marks(_, _, _, _), Out(_, _, _), Fails(_, _, _)
M(t, i, n) == <<[t |-> t, i |-> i, n |-> n]>>
Marks(debug, p, i, n) ==
  IF i > Len(p) THEN <<>>
  ELSE LET st == p[i] IN
       IF ~On(debug, st) THEN M("k", i, n) \o Marks(debug, p, i + 1, n)
       ELSE IF st.k = "assert"
       THEN (IF st.fun THEN M("c", i, n) ELSE <<>>)
            \o (IF st.holds THEN M("k", i, n) \o Marks(debug, p, i + 1, n)
                ELSE IF st.says THEN M("p", i, n) ELSE <<>>)
       ELSE LET w == IF st.says /\ st.k = "log" THEN Len(st.text) ELSE 0 IN
            (IF st.says /\ st.fun THEN M("p", i, n) ELSE <<>>) \o M("k", i, n + w) \o Marks(debug, p, i + 1, n + w)
\* what has arrived at a terminal is not known before the end
Kinds(m) == [k \in 1..Len(m) |-> <<m[k].t, m[k].i>>]
\* number of the statement that ends the process, 0: none
Fails(debug, p, i) == IF i > Len(p) THEN 0 ELSE IF On(debug, p[i]) /\ p[i].k = "assert" /\ ~p[i].holds THEN i ELSE Fails(debug, p, i + 1)
Out(debug, p, i) == IF i > Len(p) \/ (On(debug, p[i]) /\ p[i].k = "assert" /\ ~p[i].holds) THEN <<>>
                    ELSE (IF On(debug, p[i]) /\ p[i].k = "log" /\ p[i].says THEN p[i].text ELSE <<>>) \o Out(debug, p, i + 1)
HasPart(t, x) == \E i \in 0..(Len(t) - Len(x)) : SubSeq(t, i + 1, i + Len(x)) = x
\* control sequences (escape characters) are for terminals only
Plain(t) == ~Contains(t, 27)
Prints(err, st, tty) == /\ HasPart(err, st.loc) /\ (st.says => HasPart(err, st.text))
                        /\ (~tty /\ Plain(st.text) => Plain(err))
-----------------------------------------------------------------------------
Step(e) ==
  \/ e.op = "reset" /\ runs' = 0
  \/ /\ e.op = "program" /\ runs' = runs + 1
     /\ LET f == Fails(e.debug, e.p, 1) IN
        (/\ IF e.otty THEN Kinds(e.marks) = Kinds(Marks(e.debug, e.p, 1, 0)) ELSE e.marks = Marks(e.debug, e.p, 1, 0)
         /\ e.out = Out(e.debug, e.p, 1)
         /\ IF f = 0 THEN e.end = "finished" /\ e.err = <<>> ELSE e.end = "aborted" /\ Prints(e.err, e.p[f], e.tty)) = TRUE
=============================================================================
