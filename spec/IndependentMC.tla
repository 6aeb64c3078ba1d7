---------------------------- MODULE IndependentMC ----------------------------
(* Why and when threads do not affect each other, for all interleavings.        *)
(* Call: a function works in scratch memory (own: of the call, static: common   *)
(* to all calls) in two steps and returns its contents.                         *)
(* Ask: a description kept in a constant object (what() of a stacked exception) *)
(* is made when first asked for.  Policy "once" makes it under a lock if there  *)
(* is none, "unlocked" looks first and stores later, "always" stores a new one  *)
(* at every request; storing frees the previous text.                           *)
(* Share: references to one object, counted; "atomic" or in two steps "torn".   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Args, Scratch, Policy, Counting, MaxCalls
VARIABLES pc, arg, mem, results, text, texts, freed, holds, lock, refs, count, seen, alive, calls
vars == <<pc, arg, mem, results, text, texts, freed, holds, lock, refs, count, seen, alive, calls>>
cell(t) == IF Scratch = "own" THEN t ELSE 0
Init == /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 0] /\ mem = [c \in Threads \cup {0} |-> 0] /\ results = {}
        /\ text = 0 /\ texts = 0 /\ freed = {} /\ holds = [t \in Threads |-> {}] /\ lock = 0
        /\ refs = [t \in Threads |-> 1] /\ count = Cardinality(Threads) /\ seen = [t \in Threads |-> 0] /\ alive = TRUE
        /\ calls = [t \in Threads |-> 0]
u_call == <<arg, mem, results>>
u_ask == <<text, texts, freed, holds, lock>>
u_share == <<refs, count, seen, alive>>
Begin(t) == pc[t] = "idle" /\ calls[t] < MaxCalls /\ calls' = [calls EXCEPT ![t] = @ + 1]
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
-----------------------------------------------------------------------------
CallBegin(t) == Begin(t) /\ Goto(t, "write") /\ \E a \in Args : arg' = [arg EXCEPT ![t] = a] /\ UNCHANGED <<mem, results, u_ask, u_share>>
CallWrite(t) == pc[t] = "write" /\ Goto(t, "return") /\ mem' = [mem EXCEPT ![cell(t)] = arg[t]] /\ UNCHANGED <<arg, results, u_ask, u_share, calls>>
CallReturn(t) == pc[t] = "return" /\ Goto(t, "idle") /\ results' = results \cup {<<arg[t], mem[cell(t)]>>} /\ UNCHANGED <<arg, mem, u_ask, u_share, calls>>
-----------------------------------------------------------------------------
Store == /\ texts' = texts + 1 /\ text' = texts + 1 /\ freed' = IF text = 0 THEN freed ELSE freed \cup {text}
AskBegin(t) == /\ Begin(t) /\ UNCHANGED <<u_call, u_share, text, texts, freed, holds>>
               /\ \/ Policy = "once" /\ lock = 0 /\ lock' = t /\ Goto(t, "locked")
                  \/ Policy = "unlocked" /\ UNCHANGED lock /\ Goto(t, IF text = 0 THEN "make" ELSE "look")
                  \/ Policy = "always" /\ UNCHANGED lock /\ Goto(t, "make")
AskMake(t) == /\ pc[t] \in {"make", "locked"} /\ Goto(t, IF pc[t] = "make" THEN "look" ELSE "unlock")
              /\ IF pc[t] = "locked" /\ text # 0 THEN UNCHANGED <<text, texts, freed>> ELSE Store
              /\ UNCHANGED <<u_call, u_share, holds, lock, calls>>
AskLook(t) == /\ pc[t] \in {"look", "unlock"} /\ Goto(t, "idle") /\ holds' = [holds EXCEPT ![t] = @ \cup {text}]
              /\ lock' = (IF pc[t] = "unlock" THEN 0 ELSE lock) /\ UNCHANGED <<u_call, u_share, text, texts, freed, calls>>
-----------------------------------------------------------------------------
CopyRef(t) == /\ refs[t] > 0 /\ Begin(t) /\ UNCHANGED <<u_call, u_ask, alive>>
              /\ IF Counting = "atomic" THEN count' = count + 1 /\ refs' = [refs EXCEPT ![t] = @ + 1] /\ UNCHANGED <<seen, pc>>
                 ELSE seen' = [seen EXCEPT ![t] = count] /\ Goto(t, "copy") /\ UNCHANGED <<count, refs>>
CopyEnd(t) == /\ pc[t] = "copy" /\ Goto(t, "idle") /\ count' = seen[t] + 1 /\ refs' = [refs EXCEPT ![t] = @ + 1] /\ UNCHANGED <<u_call, u_ask, seen, alive, calls>>
DropRef(t) == /\ pc[t] = "idle" /\ refs[t] > 0 /\ refs' = [refs EXCEPT ![t] = @ - 1] /\ count' = count - 1 /\ alive' = (alive /\ count # 1)
              /\ UNCHANGED <<u_call, u_ask, seen, pc, calls>>
-----------------------------------------------------------------------------
Next == \E t \in Threads : CallBegin(t) \/ CallWrite(t) \/ CallReturn(t) \/ AskBegin(t) \/ AskMake(t) \/ AskLook(t) \/ CopyRef(t) \/ CopyEnd(t) \/ DropRef(t)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* every call returns what it would return alone
ResultsOfOwn == \A r \in results : r[1] = r[2]
\* what has been returned stays valid
HeldValid == \A t \in Threads : holds[t] \cap (freed \cup {0}) = {}
\* an object with references lives, one without does not
AliveIffReferred == (\A t \in Threads : pc[t] # "copy") => (alive <=> \E t \in Threads : refs[t] > 0)
=============================================================================
