---------------------------- MODULE ContainersMC -----------------------------
(* Two algorithms against the specification: stepping an iterator in pieces no  *)
(* longer than the largest difference, and inserting flipped entries one by one.*)
EXTENDS Containers
CONSTANTS MaxN, MaxKeys, Values
VARIABLES max, pos, left, n, dir, src, done, res
Maps == UNION {[1..k -> Values] : k \in 0..MaxKeys}
MCInit == /\ Init /\ max \in 1..4 /\ n \in 0..MaxN /\ pos = 0 /\ left = n /\ dir \in {1, -1}
          /\ src \in Maps /\ done = 0 /\ res = <<>>
\* the two algorithms are independent: the map is only flipped for one of the step counts
Jump == /\ left > 0 /\ LET j == IF left > max THEN max ELSE left IN left' = left - j /\ pos' = pos + dir * j
        /\ UNCHANGED <<calls, max, n, dir, src, done, res>>
Place(r, p) == LET before == SelectSeq(r, LAMBDA q : q[1] < p[1]) after == SelectSeq(r, LAMBDA q : q[1] > p[1]) IN
               IF HasKey(r, p[1]) THEN r ELSE before \o <<p>> \o after
Insert1 == /\ n = 0 /\ max = 1 /\ done < Len(src) /\ res' = Place(res, <<src[done + 1], done + 1>>) /\ done' = done + 1
           /\ UNCHANGED <<calls, max, pos, left, n, dir, src>>
MCNext == Jump \/ Insert1
MCSpec == MCInit /\ [][MCNext]_<<calls, max, pos, left, n, dir, src, done, res>> /\ WF_<<pos, left>>(Jump)
OnTheWay == pos + dir * left = dir * n /\ left >= 0
FlipsPrefix == Flipped([i \in 1..done |-> <<i, src[i]>>], res, "less")
\* flipping twice gives the map back when values are distinct
Twice == (done = Len(src) /\ n = 0 /\ max = 1 /\ Cardinality(ToSet(src)) = Len(src)) => {Swapped(res[i]) : i \in 1..Len(res)} = {<<i, src[i]>> : i \in 1..Len(src)}
Arrives == <>(left = 0)
=============================================================================
