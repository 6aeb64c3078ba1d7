------------------------------- MODULE ViewsMC -------------------------------
(* Zipping as parallel iteration up to where the first iterator reaches the     *)
(* least size, against its definition; stepping never leaves a collection.      *)
EXTENDS Views
CONSTANT MaxLen
VARIABLES pos, out
S == <<vars, pos, out>>
cs == <<0, 1, 2>>
MCInit == /\ col \in [Cols -> UNION {[1..n -> {n}] : n \in 0..MaxLen}] /\ arr = <<>>
          /\ pos = [c \in Cols |-> 1] /\ out = <<>>
MCNext == /\ pos[0] # 1 + Least(cs)
          /\ out' = Append(out, [j \in 1..3 |-> col[cs[j]][pos[cs[j]]]])
          /\ pos' = [c \in Cols |-> pos[c] + 1] /\ UNCHANGED vars
MCSpec == MCInit /\ [][MCNext]_S /\ WF_S(MCNext)
InBounds == \A c \in Cols : pos[c] <= Len(col[c]) + 1
Prefix == out = SubSeq(Zipped(cs), 1, Len(out))
Ends == <>(out = Zipped(cs))
Involution == \A c \in Cols : Reverse(Seen(c, RevPos(c))) = col[c] /\ (\A n \in 0..Len(col[c]) :
                 SubSeq(col[c], 1, n) \o Seen(c, SkipPos(c, n)) = col[c])
=============================================================================
