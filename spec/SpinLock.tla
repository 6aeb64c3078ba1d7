------------------------------ MODULE SpinLock -------------------------------
(* utki::spin_lock (property C15): who waits for the lock and who holds it.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES
  waiting,  \* threads that called lock() and did not return from it
  holder,   \* the thread that holds the lock, 0 if nobody does
  entered   \* number of times the lock was obtained
vars == <<waiting, holder, entered>>
Request(t) == t \notin waiting /\ t # holder /\ waiting' = waiting \cup {t} /\ UNCHANGED <<holder, entered>>
Acquire(t) == /\ t \in waiting /\ holder = 0
              /\ holder' = t /\ waiting' = waiting \ {t} /\ entered' = entered + 1
Release(t) == holder = t /\ t # 0 /\ holder' = 0 /\ UNCHANGED <<waiting, entered>>
Init == waiting = {} /\ holder = 0 /\ entered = 0
-----------------------------------------------------------------------------
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ToSetOf(s) == {s[i] : i \in DOMAIN s}
Step(e) ==
  \/ e.op = "reset" /\ waiting' = {} /\ holder' = 0 /\ entered' = 0
  \/ e.op = "request" /\ Request(e.t)
  \/ e.op = "acquired" /\ Acquire(e.t)
  \/ e.op = "release" /\ Release(e.t)
  \* everybody had time to proceed: one of the waiting threads got a free lock, a held one keeps the others waiting
  \/ /\ e.op = "settled" /\ UNCHANGED vars
     /\ ToSetOf(e.waiting) = waiting
     /\ ToSetOf(e.inside) = (IF holder = 0 THEN {} ELSE {holder})
     /\ (holder = 0 => waiting = {}) = TRUE
  \* many threads, thread t entering done[t] times and adding one to plain counters while inside
  \/ /\ e.op = "stress" /\ UNCHANGED vars
     /\ e.overlaps = 0
     /\ \A i \in DOMAIN e.counters : e.counters[i] = Sum(e.done)
  \* order of entries and exits as noted, inside, in a plain list: t enters, -t leaves
  \/ /\ e.op = "entries" /\ UNCHANGED vars
     /\ (Len(e.log) = 2 * Sum(e.done)) = TRUE
     /\ \A i \in DOMAIN e.log : IF (i % 2) = 1 THEN e.log[i] \in DOMAIN e.done /\ e.log[i + 1] = -e.log[i] ELSE e.log[i] < 0
     /\ \A t \in DOMAIN e.done : Cardinality({i \in DOMAIN e.log : e.log[i] = t}) = e.done[t]
=============================================================================
