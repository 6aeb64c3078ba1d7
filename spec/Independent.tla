----------------------------- MODULE Independent -----------------------------
(* Use of the library by several threads (property C35).  The behaviour of each *)
(* thread is one of the sequential specifications (checked by their own trace   *)
(* acceptors); here are constant objects read by several threads at once and    *)
(* references to one object held by several threads.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE done
vars == <<done>>
Init == done = 0
Step(e) ==
  \/ e.op = "reset" /\ done' = 0
  \* all observations made by all threads are the one made alone
  \/ e.op = "read" /\ done' = done + 1 /\ e.results = 1 /\ ~e.alone_empty
  \* the object lives as long as anybody refers to it, and is destroyed once
  \/ e.op = "share" /\ done' = done + 1 /\ e.alive = 0 /\ e.destroyed = 1 /\ e.used_dead = 0 /\ e.early = 0 /\ e.wrong = 0
=============================================================================
