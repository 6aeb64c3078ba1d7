------------------------------- MODULE Utf8MC -------------------------------
(* A writer appends code points, a reader may look at any time (also at a cut-off text). *)
EXTENDS Utf8
CONSTANTS Points, MaxChars
VARIABLES cps, text, last

MCInit == Init /\ cps = <<>> /\ text = <<>> /\ last = ""
MCNext == \E c \in Points :
            /\ Len(cps) < MaxChars
            /\ cps' = Append(cps, c)
            /\ text' = text \o Encode(c)
            /\ last' = "app " \o ToString(c)
            /\ UNCHANGED ok
MCSpec == MCInit /\ [][MCNext]_<<ok, cps, text, last>>

RoundTrips == LET d == Decode(text) IN d.mode = "run" /\ d.need = 0 /\ d.out = cps
Concatenation == text = EncodeAll(cps)
\* every cut of the text decodes to a prefix of the code points, and to no character that was not there
CutSafe == \A k \in 0..Len(text) : LET d == Decode(SubSeq(text, 1, k)) IN
              d.mode = "run" /\ IsPrefix(d.out, cps) /\ (d.need = 0 => EncodeAll(d.out) = SubSeq(text, 1, k))
BytesOk == \A i \in DOMAIN text : text[i] \in 1..253
Shortest == \A i \in DOMAIN cps : LET n == Size(cps[i]) IN
              /\ Len(Encode(cps[i])) = n /\ MinOf(n) <= cps[i] /\ cps[i] <= MaxOf(n)
=============================================================================
