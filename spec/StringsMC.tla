----------------------------- MODULE StringsMC ------------------------------
(* All texts up to a length: characters arrive one by one; a second text (suffix) grows independently. *)
EXTENDS Strings
CONSTANTS Alphabet, MaxLen, MaxOther
VARIABLES text, other
MCInit == Init /\ text = <<>> /\ other = <<>>
MCNext == \/ \E c \in Alphabet : Len(text) < MaxLen /\ text' = Append(text, c) /\ UNCHANGED <<ok, other>>
          \/ \E c \in Alphabet : Len(other) < MaxOther /\ other' = Append(other, c) /\ UNCHANGED <<ok, text>>
MCSpec == MCInit /\ [][MCNext]_<<ok, text, other>>

Count(t, d) == Len(SelectSeq(t, LAMBDA c : c = d))
\* C06
SplitLaws == \A d \in Alphabet : LET s == Split(text, d) IN
   /\ Len(s) = Count(text, d) + 1
   /\ \A i \in DOMAIN s : Count(s[i], d) = 0
   /\ Join(s, d) = text
WordLaws == LET w == Words(text) IN
   /\ \A i \in DOMAIN w : w[i] # <<>> /\ \A j \in DOMAIN w[i] : w[i][j] \notin Space
   /\ FlattenSeq(w) = SelectSeq(text, LAMBDA c : c \notin Space)
   /\ Words(Join(w, 32)) = w
\* C11
TrimLaws == LET f == TrimFront(text)  k == TrimBack(text)  m == TrimBoth(text)
                Cut(p) == SubSeq(text, p[1] + 1, p[1] + p[2])
            IN /\ Cut(f) # <<>> => Cut(f)[1] \notin Space
               /\ Cut(k) # <<>> => Cut(k)[Len(Cut(k))] \notin Space
               /\ Cut(m) # <<>> => Cut(m)[1] \notin Space /\ Cut(m)[Len(Cut(m))] \notin Space
               /\ \A i \in 1..(Len(text) - f[2]) : text[i] \in Space
               /\ \A i \in (k[2] + 1)..Len(text) : text[i] \in Space
               /\ Words(Cut(m)) = Words(text)
FixLaws == /\ StartsWith(text, other) <=> \E r \in {SubSeq(text, i, Len(text)) : i \in 1..(Len(text) + 1)} : text = other \o r
           /\ EndsWith(text, other) <=> StartsWith(Reverse(text), Reverse(other))
=============================================================================
