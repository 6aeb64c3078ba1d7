------------------------------ MODULE Terminals ------------------------------
(* Which standard streams are terminals (property C34).  A process has three     *)
(* streams, each connected to something; connections change over time.          *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Streams == {"cin", "cout", "cerr"}
Things == {"terminal", "pipe", "file", "null", "zero", "socket", "directory", "closed"}
VARIABLES to, asked \* what each stream is connected to; answers so far
vars == <<to, asked>>
Init == to = [s \in Streams |-> "null"] /\ asked = 0
Answer(s) == to[s] = "terminal"
-----------------------------------------------------------------------------
Step(e) ==
  \/ e.op = "reset" /\ to' = [s \in Streams |-> "null"] /\ asked' = 0
  \/ e.op = "connect" /\ e.s \in Streams /\ e.t \in Things /\ to' = [to EXCEPT ![e.s] = e.t] /\ UNCHANGED asked
  \/ e.op = "ask" /\ asked' = asked + 1 /\ UNCHANGED to
     /\ e.cin = Answer("cin") /\ e.cout = Answer("cout") /\ e.cerr = Answer("cerr")
     /\ e.oldcin = Answer("cin") /\ e.oldcout = Answer("cout") /\ e.oldcerr = Answer("cerr")
=============================================================================
