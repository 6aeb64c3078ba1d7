---------------------------- MODULE AssertionsMC -----------------------------
(* The same as a process that executes statement by statement.                  *)
EXTENDS Assertions
CONSTANT MaxLen
VARIABLES debug, prog, pc, marks, out, state
S == <<vars, debug, prog, pc, marks, out, state>>
Stmts == {[k |-> "assert", always |-> a, holds |-> h, fun |-> f, says |-> s, text |-> <<1>>, loc |-> <<2>>] : a, h, f, s \in BOOLEAN}
         \cup {[k |-> "log", always |-> a, holds |-> TRUE, fun |-> TRUE, says |-> s, text |-> <<3, 4>>, loc |-> <<>>] : a, s \in BOOLEAN}
MCInit == /\ Init /\ debug \in BOOLEAN /\ prog \in UNION {[1..n -> Stmts] : n \in 0..MaxLen}
          /\ pc = 1 /\ marks = <<>> /\ out = <<>> /\ state = "running"
Mark(t) == M(t, pc, Len(out))
MCNext ==
  /\ state = "running" /\ UNCHANGED <<runs, debug, prog>>
  /\ IF pc > Len(prog) THEN state' = "finished" /\ UNCHANGED <<pc, marks, out>>
     ELSE LET st == prog[pc]
              skip == pc' = pc + 1 /\ state' = state IN
       IF ~(debug \/ st.always) THEN skip /\ marks' = marks \o Mark("k") /\ UNCHANGED out
       ELSE IF st.k = "log"
       THEN /\ skip /\ out' = out \o (IF st.says THEN st.text ELSE <<>>)
            /\ marks' = marks \o (IF st.says THEN Mark("p") ELSE <<>>) \o M("k", pc, Len(out'))
       ELSE /\ UNCHANGED out
            /\ LET m == marks \o (IF st.fun THEN Mark("c") ELSE <<>>) IN
               IF st.holds THEN skip /\ marks' = m \o Mark("k")
               ELSE state' = "aborted" /\ marks' = (m \o (IF st.says THEN Mark("p") ELSE <<>>)) /\ UNCHANGED pc
MCSpec == MCInit /\ [][MCNext]_S
Agrees == state # "running" =>
  /\ marks = Marks(debug, prog, 1, 0) /\ out = Out(debug, prog, 1)
  /\ Fails(debug, prog, 1) = (IF state = "aborted" THEN pc ELSE 0)
Stops == state = "aborted" => \A i \in 1..Len(marks) : marks[i].i <= pc
Silent == ~debug => \A i \in 1..Len(marks) : marks[i].t # "k" => prog[marks[i].i].always
=============================================================================
