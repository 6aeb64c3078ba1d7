------------------------------ MODULE ParserMC ------------------------------
EXTENDS Parser, Hex
CONSTANTS Alphabet, MaxLen, Stops, Counts
VARIABLES last, res

MCInit == /\ text \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
          /\ pos = 0 /\ last = "text " \o HexText(text) /\ res = [n |-> 0, res |-> NoView]

Act(op, a, txt) == Do(op, a) /\ res' = Effect(op, a) /\ last' = txt
MCNext == \/ \E op \in {"ws", "wsc", "word", "ch", "peek"} : Act(op, <<>>, op)
          \/ \E op \in {"until", "wordu", "charsu"}, c \in Stops : Act(op, <<c>>, op \o " " \o HexText(<<c>>))
          \/ \E cs \in {<<>>} \cup {<<c>> : c \in Stops} \cup {<<44, 97>>} : Act("oneof", cs, "oneof " \o HexText(cs))
          \/ \E op \in {"chars", "peekn"}, n \in Counts : Act(op, <<n>>, op \o " " \o ToString(n))
S == <<vars, last, res>>
MCSpec == MCInit /\ [][MCNext]_S

Bounds == pos \in 0..Len(text)
Forward == [][pos' >= pos /\ (res'.res.r # "ok" => pos' = pos)]_S
\* the stop character is not part of what was read, and is the next one
Stopped == [][\A c \in Stops : last' = "charsu " \o HexText(<<c>>) =>
                 /\ \A i \in (pos + 1)..pos' : text[i] # c
                 /\ pos' < Len(text) => text[pos' + 1] = c]_S
NoSpaceLeft == [][last' = "ws" => (pos' = Len(text) \/ text[pos' + 1] \notin Space)]_S
=============================================================================
