------------------------------ MODULE ChainsMC ------------------------------
EXTENDS Chains
CONSTANTS MaxObj, Depth, Sole   \* Sole: references are exclusive (unique_ref)
VARIABLES born, gone, cnt, last
S == <<vars, born, gone, cnt, last>>
Roots == {"0", "1", "3"}
Derived == {"3"}
\* the root "3" only refers to objects made there
MCInit == Init /\ born = 0 /\ gone = <<>> /\ cnt = <<>> /\ last = "begin"
\* incrementally kept numbers of references, recomputed from what changed
Count(o) == Cardinality({x \in DOMAIN root' : root'[x] = o}) + Cardinality({p \in DOMAIN next' : next'[p] = o})
Rest == /\ gone' = gone \o SetToSeq(DOMAIN next \ DOMAIN next')
        /\ cnt' = [o \in DOMAIN next' |-> Count(o)]
        /\ Acyclic'
T == IF Sole THEN "u" ELSE "s"
MCNext ==
  \/ \E x \in Roots : born < MaxObj /\ Make(x, born + 1) /\ born' = born + 1 /\ Rest /\ last' = "make " \o T \o " " \o x
  \/ /\ UNCHANGED born
     /\ \/ \E x \in Roots, y \in Roots :
             /\ x # y
             /\ \/ ~Sole /\ x \notin Derived /\ Assign(x, y) /\ Rest /\ last' = "assign " \o T \o " " \o x \o " " \o y
                \/ x \notin Derived /\ Move(x, y) /\ Rest /\ last' = "move " \o T \o " " \o x \o " " \o y
                \/ ~Sole /\ Link(x, y) /\ Rest /\ last' = "link " \o T \o " " \o x \o " " \o y
                \/ LinkMove(x, y) /\ Rest /\ last' = "linkmove " \o T \o " " \o x \o " " \o y
                \/ y \notin Derived /\ Take(x, y) /\ Rest /\ last' = "take " \o T \o " " \o x \o " " \o y
        \/ \E x \in Roots :
             \/ Has(x) /\ Drop(x) /\ Rest /\ last' = "drop " \o T \o " " \o x
             \/ Has(x) /\ Slot(x) # 0 /\ Cut(x) /\ Rest /\ last' = "cut " \o T \o " " \o x
             \/ ~Sole /\ x \notin Derived /\ Pop(x) /\ Rest /\ last' = "pop " \o T \o " " \o x
             \/ x \notin Derived /\ PopMove(x) /\ Rest /\ last' = "popmove " \o T \o " " \o x
             \/ ~Sole /\ Splice(x) /\ Rest /\ last' = "splice " \o T \o " " \o x
             \/ SpliceMove(x) /\ Rest /\ last' = "splicemove " \o T \o " " \o x
        \/ ~Sole /\ Swap("0", "1") /\ Rest /\ last' = "swap " \o T \o " 0 1"
        \/ Sole /\ Swap("0", "1") /\ Rest /\ last' = "swap " \o T \o " 0 1"
MCSpec == MCInit /\ [][MCNext]_S
\* reachability and reference counting agree
Counted == \A o \in DOMAIN next : cnt[o] >= 1
Exclusive == Sole => \A o \in DOMAIN next : cnt[o] = 1
Once == Cardinality({gone[i] : i \in DOMAIN gone}) = Len(gone)
Exactly == {gone[i] : i \in DOMAIN gone} = (1..born) \ DOMAIN next
NoDangling == {next[o] : o \in DOMAIN next} \ {0} \subseteq DOMAIN next
Bound == TLCGet("level") <= Depth
=============================================================================
