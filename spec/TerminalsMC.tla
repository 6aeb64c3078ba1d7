----------------------------- MODULE TerminalsMC -----------------------------
(* All ways to connect three streams, one change at a time: an answer depends    *)
(* on the present connection of its own stream only.  The answers given are kept *)
(* to state that nothing but a change of a stream changes its answer.           *)
EXTENDS Terminals
Few == {"terminal", "pipe", "closed"}
VARIABLES last, given
mvars == <<vars, last, given>>
MCInit == Init /\ last = "" /\ given = [s \in Streams |-> FALSE]
Connect == \E s \in Streams, t \in Things : /\ to[s] # t
  /\ Step([op |-> "connect", s |-> s, t |-> t])
  /\ last' = "connect " \o s \o " " \o t
  /\ UNCHANGED given
Ask == /\ last # "ask" /\ asked < 1000 /\ to' = to /\ asked' = asked
       /\ given' = [s \in Streams |-> Answer(s)] /\ last' = "ask"
MCSpec == MCInit /\ [][Connect \/ Ask]_mvars
Own == [][last' # "ask" => \A s \in Streams : (to'[s] = to[s]) => ((to'[s] = "terminal") = Answer(s))]_mvars
Right == last = "ask" => \A s \in Streams : given[s] = (to[s] = "terminal")
=============================================================================
