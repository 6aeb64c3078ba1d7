---------------------------- MODULE Serialization ---------------------------
(* Serialization of unsigned numbers and floats into memory (property C04).  *)
(* A number is the sequence of its bytes, least significant byte first.      *)
EXTENDS Integers, Sequences, SequencesExt, TLC

VARIABLE mem        \* the memory block around the serialized values
vars == <<mem>>

Image(v, be) == IF be THEN Reverse(v) ELSE v       \* byte order in memory

Fits(pos, w) == pos >= 0 /\ pos + w <= Len(mem)

\* writing number v at offset pos changes exactly Len(v) bytes
After(pos, v, be) == [i \in 1..Len(mem) |-> IF i > pos /\ i <= pos + Len(v) THEN Image(v, be)[i - pos] ELSE mem[i]]
Read(pos, w, be) == Image(SubSeq(mem, pos + 1, pos + w), be)

Init == mem = <<>>

Step(e) ==
  \/ e.op = "reset" /\ mem' = <<>>
  \/ e.op = "mem" /\ mem' = e.b
  \/ /\ e.op = "ser" /\ Fits(e.pos, e.w) /\ Len(e.v) = e.w
     /\ e.ret = e.pos + e.w
     /\ mem' = After(e.pos, e.v, e.be)
     /\ e.mem = mem'
  \/ /\ e.op = "des" /\ Fits(e.pos, e.w)
     /\ e.v = Read(e.pos, e.w, e.be)
     /\ UNCHANGED mem
     /\ e.mem = mem
=============================================================================
