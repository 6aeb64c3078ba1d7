---------------------------- MODULE SingletonMC -----------------------------
EXTENDS Singleton
VARIABLES alive, last     \* alive: set of <<class, serial>> of objects that exist
CONSTANTS Depth, Early, Some
S == <<vars, alive, last>>
MCInit == Init /\ alive = {} /\ last = "begin"
MCNext ==
  \/ \E c \in Some, f \in {"no", "early", "member", "body"} :
       /\ f = "early" => c \in Early
       /\ Construct(c, f)
       /\ alive' = IF Result(c, f) = "ok" THEN alive \cup {<<c, born + 1>>} ELSE alive
       /\ last' = "construct " \o c \o " " \o f
  \/ \E c \in Some : Destroy(c) /\ alive' = {x \in alive : x[1] # c} /\ last' = "destroy " \o c
MCSpec == MCInit /\ [][MCNext]_S
Bound == born <= Depth
AtMostOne == \A x, y \in alive : x[1] = y[1] => x = y
Reached == \A c \in Classes : IF inst[c] = 0 THEN ~\E x \in alive : x[1] = c ELSE <<c, inst[c]>> \in alive
\* an operation on one class leaves the others alone
Independent == [][\E c \in Classes : \A d \in Classes \ {c} : inst'[d] = inst[d]]_S
\* a refused construction harms nobody
Unharmed == [][inst' # inst => \/ \E c \in Classes : inst[c] = 0 /\ inst' = [inst EXCEPT ![c] = born']
                               \/ \E c \in Classes : inst[c] # 0 /\ inst' = [inst EXCEPT ![c] = 0]]_S
=============================================================================
