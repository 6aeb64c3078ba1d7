----------------------------- MODULE Singleton ------------------------------
(* Singleton classes (property C14).  Objects have serial numbers.            *)
EXTENDS Integers, Sequences, TLC
Classes == {"plain", "intrusive", "multi", "service", "library", "inside"}
VARIABLES
  inst,   \* class -> serial number of its live instance, 0 if there is none
  born    \* number of construction attempts so far
vars == <<inst, born>>
Result(c, fails) == IF inst[c] # 0 THEN (IF fails = "early" THEN "failure" ELSE "logic_error")
                    ELSE IF fails = "no" THEN "ok" ELSE "failure"
\* fails: "no", or where the construction fails: "early" (before the singleton base), "member", "body"
Construct(c, fails) ==
  /\ born' = born + 1
  /\ inst' = IF Result(c, fails) = "ok" THEN [inst EXCEPT ![c] = born + 1] ELSE inst
Destroy(c) == inst[c] # 0 /\ inst' = [inst EXCEPT ![c] = 0] /\ UNCHANGED born
Init == inst = [c \in Classes |-> 0] /\ born = 0
-----------------------------------------------------------------------------
\* what is seen afterwards: for every class whether it is created, and which object is reached
Seen(e) == \A i \in DOMAIN e.seen : LET s == e.seen[i] IN
  /\ s.cls \in Classes
  /\ s.created = (inst'[s.cls] # 0)
  /\ s.reached = inst'[s.cls]
  /\ s.same
\* A program ends while an object exists.  How it does: an automatic object when main returns, or when exit or quick exit is called;
\* an object of static storage duration, local or global; an object that nobody deletes.  The program ends normally, the object is
\* destroyed not more than once, and exactly once where the language demands it.
Finish(e) ==
  /\ e.cls \in Classes
  /\ e.reports = <<"created">>
  /\ e.normal
  /\ e.destroyed <= 1
  /\ e.how \in {"return", "static", "global"} => e.destroyed = 1
  /\ e.how = "quit" => e.destroyed = 0
Step(e) ==
  \/ e.op = "finish" /\ Finish(e) = TRUE /\ UNCHANGED vars
  \/ e.op = "reset" /\ inst' = [c \in Classes |-> 0] /\ born' = 0
  \/ e.op = "construct" /\ e.r = Result(e.cls, e.fails) /\ Construct(e.cls, e.fails) /\ Seen(e) = TRUE
  \/ e.op = "copies" /\ UNCHANGED vars /\ e.cls \in Classes /\ ~e.copy /\ ~e.move
  \/ e.op = "destroy" /\ Destroy(e.cls) /\ Seen(e) = TRUE
=============================================================================
