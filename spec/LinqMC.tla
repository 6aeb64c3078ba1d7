------------------------------- MODULE LinqMC --------------------------------
(* Laws of the steps for all small collections, and all pipelines of up to      *)
(* MaxSteps steps as behaviours to replay.                                      *)
EXTENDS Linq
CONSTANTS MaxLen, MaxSteps
VARIABLES src, steps, grouped, last
S == <<done, src, steps, grouped, last>>
Recs == {<<k, v>> : k \in {1, 2}, v \in {1, 2}}
MCInit == Init /\ src \in UNION {[1..n -> Recs] : n \in 0..MaxLen} /\ steps = <<>> /\ grouped = FALSE /\ last = ""
OnRecords == {<<"select", f>> : f \in {"inc", "half", "swap", "index", "position", "key"}} \cup {<<"where", p>> : p \in {"even", "small", "all", "nothing"}}
             \cup {<<"group", f>> : f \in {"k", "v", "mod"}} \cup {<<"order", f>> : f \in {"k", "v"}}
OnGroups == {<<"select", f>> : f \in {"sum", "count", "first"}} \cup {<<"where", p>> : p \in {"several", "odd_key", "all", "nothing"}}
MCNext == /\ Len(steps) < MaxSteps /\ UNCHANGED <<done, src>>
          /\ \E st \in IF grouped THEN OnGroups ELSE OnRecords :
               /\ steps' = Append(steps, st) /\ grouped' = (IF st[1] = "group" THEN TRUE ELSE IF st[1] = "select" THEN FALSE ELSE grouped)
               /\ last' = st[1] \o " " \o st[2]
MCSpec == MCInit /\ [][MCNext]_S
Laws ==
  /\ \A f \in {"k", "kref", "v", "mod"} :
       LET g == Group(f, src) IN
       /\ Permutation(FlattenSeq([i \in 1..Len(g) |-> g[i][2]]), src)
       /\ \A i \in 1..Len(g) : g[i][2] # <<>> /\ \A j \in 1..Len(g[i][2]) : Key(f, g[i][2][j]) = g[i][1]
       /\ \A i \in 1..(Len(g) - 1) : g[i][1] < g[i + 1][1]
  /\ \A f \in {"k", "v"} : Orders(f, src) # {} /\ \A t \in Orders(f, src) : Permutation(t, src) /\ Sorted(f, t)
  /\ \A p \in {"even", "small"} : LET w == SelectSeq(src, LAMBDA x : Pred(p, x)) IN
       (\A i \in 1..Len(w) : Pred(p, w[i])) /\ SelectSeq(w, LAMBDA x : Pred(p, x)) = w
\* every pipeline means something, only ordering is ambiguous
Defined == LET m == Meaning(steps, src) IN m # {} /\ ((\A i \in 1..Len(steps) : steps[i][1] # "order") => Cardinality(m) = 1)
=============================================================================
