------------------------------ MODULE ScopeExit ------------------------------
(* utki::scope_exit (property C16).  Guards live on a stack of scopes.          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES
  stack,    \* guards that exist: [id, armed], innermost last
  leaving,  \* number of guards still to be destroyed by the exit in progress, -1: no exit in progress
  held,     \* actions handed out by release
  calling   \* the handed out action being called, 0: none
vars == <<stack, leaving, held, calling>>
N == Len(stack)
Pos(id) == CHOOSE i \in DOMAIN stack : stack[i].id = id
Exists(id) == \E i \in DOMAIN stack : stack[i].id = id
\* number of guards on top with nothing to run
Idle == Cardinality({i \in DOMAIN stack : \A j \in i..N : ~stack[j].armed})

Create(id, empty) == /\ leaving = -1 /\ calling = 0 /\ ~Exists(id)
                     /\ stack' = Append(stack, [id |-> id, armed |-> ~empty])
                     /\ held' = held \ {id} /\ UNCHANGED <<leaving, calling>>
\* got: a callable was handed out
Release(id, got) == /\ Exists(id) /\ got = stack[Pos(id)].armed
                    /\ stack' = [stack EXCEPT ![Pos(id)].armed = FALSE]
                    /\ held' = IF got THEN held \cup {id} ELSE held
                    /\ UNCHANGED <<leaving, calling>>
Call(id) == /\ id \in held /\ calling = 0 /\ leaving = -1 /\ calling' = id /\ UNCHANGED <<stack, leaving, held>>
\* leaving n scopes, normally or by an exception
Exit(n) == leaving = -1 /\ calling = 0 /\ n \in 1..N /\ leaving' = n /\ UNCHANGED <<stack, held, calling>>
\* an action runs: the one called, or that of the innermost guard being destroyed
Run(id) == \/ calling = id /\ id # 0 /\ calling' = 0 /\ UNCHANGED <<stack, leaving, held>>
           \/ /\ leaving > 0 /\ Idle < leaving /\ stack[N - Idle].id = id
              /\ stack' = SubSeq(stack, 1, N - Idle - 1) /\ leaving' = leaving - Idle - 1
              /\ UNCHANGED <<held, calling>>
Left == /\ leaving >= 0 /\ Idle >= leaving
        /\ stack' = SubSeq(stack, 1, N - leaving) /\ leaving' = -1 /\ UNCHANGED <<held, calling>>

Init == stack = <<>> /\ leaving = -1 /\ held = {} /\ calling = 0
-----------------------------------------------------------------------------
Step(e) ==
  \/ e.op = "reset" /\ stack' = <<>> /\ leaving' = -1 /\ held' = {} /\ calling' = 0
  \/ e.op = "guards" /\ ~e.again /\ ~e.forget /\ UNCHANGED vars
  \/ e.op = "guard" /\ Create(e.id, e.empty)
  \/ e.op = "release" /\ Release(e.id, e.got)
  \/ e.op = "calling" /\ Call(e.id)
  \/ e.op = "called" /\ calling = 0 /\ UNCHANGED vars
  \/ e.op = "exit" /\ Exit(e.n)
  \/ e.op = "ran" /\ Run(e.id)
  \/ e.op = "left" /\ Left /\ e.depth = Len(stack')
=============================================================================
