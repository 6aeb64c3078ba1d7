---------------------------- MODULE ExceptionsMC -----------------------------
(* For all chains of up to MaxLevels levels: one entry per level, outermost     *)
(* first, each with the indentation.  Level i has name <<1000+i>>,              *)
(* message <<500+i>> (texts without line feeds).                                            *)
EXTENDS Exceptions
CONSTANT MaxLevels
Kinds == {"std", "other", "stacked"}
Lev(k, i) == [kind |-> k, name |-> <<1000 + i>>, msg |-> <<500 + i>>, nname |-> <<2000 + i>>]
Chains == UNION {{[i \in 1..n |-> Lev(k[i], i)] : k \in {f \in [1..n -> Kinds] : f[n] # "stacked"}} : n \in 1..MaxLevels}
MCInit == chain \in Chains
MCSpec == MCInit /\ [][UNCHANGED vars]_vars
Ind == <<32, 32>>
RECURSIVE Lines(_)
Lines(t) == IF \E i \in 1..Len(t) : t[i] = 10
            THEN LET i == CHOOSE i \in 1..Len(t) : t[i] = 10 /\ \A j \in 1..(i - 1) : t[j] # 10 IN <<SubSeq(t, 1, i - 1)>> \o Lines(SubSeq(t, i + 1, Len(t)))
            ELSE <<t>>
Entry(i) == IF chain[i].kind = "other" THEN Ind \o chain[i].name ELSE Ind \o chain[i].name \o Colon \o chain[i].msg
NoStacked == \A i \in 1..Len(chain) : chain[i].kind # "stacked"
OnePerLevel ==
  NoStacked => /\ (IsStd(chain) => Lines(Describe(chain, Ind)) = [i \in 1..Len(chain) |-> Entry(i)])
               /\ Lines(Current(chain, Ind)) = [i \in 1..Len(chain) |-> IF i = 1 THEN Ind \o chain[1].name ELSE Entry(i)]
\* stacked levels outside, others inside
StackFirst == \E k \in 1..(Len(chain) - 1) : (\A i \in 1..k : chain[i].kind = "stacked") /\ \A i \in (k + 1)..Len(chain) : chain[i].kind # "stacked"
StackEntry(i) == IF chain[i].kind = "stacked" THEN Ind \o chain[i].nname \o Colon \o chain[i].msg
                 ELSE IF chain[i].kind = "std" THEN Ind \o chain[i].name \o Colon \o chain[i].msg ELSE Ind \o chain[i].name
OnePerStackLevel == StackFirst => Lines(Stack(chain, Ind)) = [i \in 1..Len(chain) |-> StackEntry(i)]
\* every level is named somewhere, however nested, except below a stacked exception described without an object
Named == \A i \in 1..Len(chain) : LET d == IF IsStd(chain) THEN Describe(chain, <<>>) ELSE Current(chain, <<>>) IN
           Cardinality({j \in 1..Len(d) : d[j] = (IF chain[i].kind = "stacked" THEN 2000 ELSE 1000) + i}) = 1
=============================================================================
