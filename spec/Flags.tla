-------------------------------- MODULE Flags --------------------------------
(* Three flag sets over an enumeration of n items (property C22).               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES n, fs
vars == <<n, fs>>
Slots == 0..2
All == 0..(n - 1)
Init == n = 1 /\ fs = [s \in Slots |-> {}]
Becomes(s, x) == fs' = [fs EXCEPT ![s] = x] /\ UNCHANGED n
Xor(a, b) == (a \ b) \cup (b \ a)
Bin(o, a, b) == IF o = "and" THEN a \cap b ELSE IF o = "or" THEN a \cup b ELSE Xor(a, b)
With(x, f, v) == IF v THEN x \cup {f} ELSE x \ {f}
\* bits of a set, first flag first
Bits(x) == [i \in 1..n |-> IF i - 1 \in x THEN 1 ELSE 0]
\* printed: last flag first
Text(x) == [i \in 1..n |-> IF n - i \in x THEN 49 ELSE 48]
-----------------------------------------------------------------------------
\* the flags that the code shows afterwards, through get()
Shown(e) == \A s \in Slots : {i \in 0..(n' - 1) : e.bits[s + 1][i + 1] = 1} = fs'[s] /\ Len(e.bits[s + 1]) = n'
Step(e) ==
  \/ e.op = "reset" /\ n' = 1 /\ fs' = [s \in Slots |-> {}]
  \/ e.op = "kind" /\ n' = e.n /\ fs' = [s \in Slots |-> {}] /\ Shown(e) = TRUE
  \/ e.op = "of_bool" /\ Becomes(e.s, IF e.v THEN All ELSE {}) /\ Shown(e) = TRUE
  \/ e.op = "of_list" /\ Becomes(e.s, ToSet(e.list)) /\ Shown(e) = TRUE
  \/ e.op = "copy" /\ Becomes(e.s, fs[e.a]) /\ Shown(e) = TRUE
  \/ e.op = "set" /\ Becomes(e.s, With(fs[e.s], e.f, e.v)) /\ Shown(e) = TRUE
  \/ e.op = "set_all" /\ Becomes(e.s, IF e.v THEN All ELSE {}) /\ Shown(e) = TRUE
  \/ e.op = "invert" /\ Becomes(e.s, All \ fs[e.s]) /\ Shown(e) = TRUE
  \/ e.op = "flip" /\ Becomes(e.s, Xor(fs[e.s], {e.f})) /\ Shown(e) = TRUE
  \/ e.op = "not" /\ Becomes(e.s, All \ fs[e.a]) /\ Shown(e) = TRUE
  \/ e.op = "bin" /\ Becomes(e.s, Bin(e.o, fs[e.a], fs[e.b])) /\ Shown(e) = TRUE
  \/ e.op = "bin1" /\ Becomes(e.s, Bin(e.o, fs[e.a], {e.f})) /\ Shown(e) = TRUE
  \/ /\ e.op = "query" /\ UNCHANGED vars /\ Shown(e) = TRUE
     /\ e.size = n /\ e.is_clear = (fs[e.s] = {}) /\ e.is_set = (fs[e.s] = All)
     /\ e.index = Bits(fs[e.s]) /\ e.text = Text(fs[e.s])
  \/ e.op = "compare" /\ UNCHANGED vars /\ e.eq = (fs[e.a] = fs[e.b]) /\ e.ne = (fs[e.a] # fs[e.b])
=============================================================================
