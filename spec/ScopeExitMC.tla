---------------------------- MODULE ScopeExitMC ------------------------------
EXTENDS ScopeExit
CONSTANTS MaxId, Behs, MaxCalls
VARIABLES beh, ran, how, calls, pend, last
\* ran: how often the destruction ran each action; how: what became of each guard; pend: action of a just run guard still to happen
S == <<vars, beh, ran, how, calls, pend, last>>
MCInit == /\ Init /\ beh = <<>> /\ ran = <<>> /\ how = <<>> /\ calls = 0 /\ pend = 0 /\ last = "begin"
MCNext ==
  \/ /\ pend = 0 /\ leaving = -1 /\ calling = 0
     /\ \/ \E b \in Behs : LET id == Len(beh) + 1 IN
             /\ id <= MaxId /\ Create(id, b = "empty")
             /\ beh' = Append(beh, b) /\ ran' = Append(ran, 0) /\ how' = Append(how, "live") /\ UNCHANGED <<calls, pend>>
             /\ last' = "guard " \o ToString(id) \o " " \o b
        \/ \E id \in 1..Len(beh) :
             /\ Exists(id) /\ Release(id, stack[Pos(id)].armed)
             /\ how' = [how EXCEPT ![id] = "released"] /\ UNCHANGED <<beh, ran, calls, pend>>
             /\ last' = "release " \o ToString(id)
        \/ \E id \in held :
             /\ calls < MaxCalls /\ Call(id) /\ calls' = calls + 1 /\ UNCHANGED <<beh, ran, how, pend>>
             /\ last' = "call " \o ToString(id)
        \/ \E n \in 1..N, k \in {"leave ", "throw "} : Exit(n) /\ last' = k \o ToString(n) /\ UNCHANGED <<beh, ran, how, calls, pend>>
  \/ /\ pend = 0 /\ last' = ""
     /\ \/ \E id \in 1..Len(beh) :
             /\ Run(id)
             /\ ran' = IF calling = id THEN ran ELSE [ran EXCEPT ![id] = @ + 1]
             /\ pend' = IF beh[id] = "rel" THEN id ELSE 0
             /\ UNCHANGED <<beh, how, calls>>
        \/ Left /\ UNCHANGED <<beh, ran, how, calls, pend>>
  \/ \* the action itself releases the guard created before its own
     /\ pend # 0 /\ last' = "" /\ pend' = 0
     /\ IF Exists(pend - 1) THEN /\ Release(pend - 1, stack[Pos(pend - 1)].armed)
                                 /\ how' = [how EXCEPT ![pend - 1] = "released"]
        ELSE UNCHANGED <<vars, how>>
     /\ UNCHANGED <<beh, ran, calls>>
MCSpec == MCInit /\ [][MCNext]_S
Once == \A i \in DOMAIN ran : ran[i] <= 1
Never == \A i \in DOMAIN ran : (how[i] = "released" \/ beh[i] = "empty") => ran[i] = 0
\* a guard that is gone and was never released has run
All == leaving = -1 => \A i \in DOMAIN ran : (~Exists(i) /\ how[i] = "live" /\ beh[i] # "empty") => ran[i] = 1
\* reverse order of creation
Order == [][\A i, j \in DOMAIN ran : (i < j /\ Exists(i) /\ Exists(j)) => ~(ran'[i] > ran[i] /\ Exists(j) /\ stack[Pos(j)].armed)]_S
=============================================================================
