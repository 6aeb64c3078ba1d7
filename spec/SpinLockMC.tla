----------------------------- MODULE SpinLockMC ------------------------------
(* The algorithm: test-and-set with acquire, clear with release, each access    *)
(* to the flag a separate step.  Knowledge of the protected data travels only   *)
(* by release/acquire: `carried` is what the flag's last clear published.       *)
EXTENDS SpinLock
CONSTANTS Threads, MaxEntries
VARIABLES flag, version, known, carried, pc, last
S == <<vars, flag, version, known, carried, pc, last>>
MCInit == /\ Init /\ flag = FALSE /\ version = 0 /\ known = [t \in Threads |-> 0] /\ carried = 0
          /\ pc = [t \in Threads |-> "idle"] /\ last = "begin"
Call(t) == /\ pc[t] = "idle" /\ entered + Cardinality(waiting) < MaxEntries /\ Request(t)
           /\ pc' = [pc EXCEPT ![t] = "try"] /\ last' = "request " \o ToString(t)
           /\ UNCHANGED <<flag, version, known, carried>>
TestAndSet(t) == /\ pc[t] = "try" /\ last' = ""
                 /\ flag' = TRUE
                 /\ known' = [known EXCEPT ![t] = IF @ > carried THEN @ ELSE carried]   \* acquire
                 /\ IF flag THEN UNCHANGED <<vars, pc>>
                    ELSE /\ pc' = [pc EXCEPT ![t] = "in"]
                         /\ waiting' = waiting \ {t} /\ holder' = t /\ entered' = entered + 1
                 /\ UNCHANGED <<version, carried>>
Work(t) == /\ pc[t] = "in" /\ version' = version + 1 /\ known' = [known EXCEPT ![t] = version + 1]
           /\ pc' = [pc EXCEPT ![t] = "out"] /\ last' = ""
           /\ UNCHANGED <<vars, flag, carried>>
Clear(t) == /\ pc[t] = "out" /\ flag' = FALSE /\ carried' = known[t]                    \* release
            /\ holder' = (IF holder = t THEN 0 ELSE holder) /\ UNCHANGED <<waiting, entered>>
            /\ pc' = [pc EXCEPT ![t] = "idle"] /\ last' = "release"
            /\ UNCHANGED <<version, known>>
MCNext == \E t \in Threads : Call(t) \/ TestAndSet(t) \/ Work(t) \/ Clear(t)
\* `last` is not part of what the steps depend on; a failed test-and-set leaves everything else alone
Fair == \A t \in Threads : WF_S(TestAndSet(t) /\ ~flag) /\ WF_S(Work(t)) /\ WF_S(Clear(t))
MCSpec == MCInit /\ [][MCNext]_S /\ Fair
Inside == {t \in Threads : pc[t] \in {"in", "out"}}
MutualExclusion == Cardinality(Inside) <= 1
\* whoever is about to touch the data knows the newest version: no race, no lost update
Published == \A t \in Threads : pc[t] \in {"in", "out"} => known[t] = version
Refines == Inside = (IF holder = 0 THEN {} ELSE {holder}) /\ waiting = {t \in Threads : pc[t] = "try"}
NothingLost == version + Cardinality({t \in Threads : pc[t] = "in"}) = entered
\* while it is held nobody else gets in
Waits == [][\A t \in Threads : (pc[t] = "try" /\ pc'[t] = "in") => holder = 0]_S
\* a free lock with waiting threads is obtained by one of them
Progress == (waiting # {} /\ holder = 0) ~> (holder # 0)
=============================================================================
