----------------------------- MODULE Utf8BytesMC -----------------------------
(* Arbitrary bytes arrive one by one (property C02). *)
EXTENDS Utf8
CONSTANTS Alphabet, MaxLen
VARIABLES text, st
MCInit == Init /\ text = <<>> /\ st = Start
MCNext == \E b \in Alphabet : Len(text) < MaxLen /\ text' = Append(text, b) /\ st' = Feed(st, b) /\ UNCHANGED ok
MCSpec == MCInit /\ [][MCNext]_<<ok, text, st>>
\* the automaton is total, never claims more characters than bytes, and what it accepted is the encoding of what it delivered
Total == st.mode \in {"run", "zero", "bad"} /\ Len(st.out) <= Len(text)
Canonical == (st.mode = "run" /\ st.need = 0) => EncodeAll(st.out) = text
PrefixSound == IsPrefix(EncodeAll(st.out), text)
Incremental == st = Decode(text)
Monotone == [][IsPrefix(st.out, st'.out) /\ (st.mode # "run" => st' = st)]_<<ok, text, st>>
=============================================================================
