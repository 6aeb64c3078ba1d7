---------------------------- MODULE Deserializer ----------------------------
(* utki::deserializer: a cursor over a byte buffer (property C05).           *)
EXTENDS Integers, Sequences, SequencesExt, TLC

VARIABLES
  buf,    \* the whole buffer, as a sequence of byte values
  pos     \* number of bytes consumed so far

vars == <<buf, pos>>

Rest == SubSeq(buf, pos + 1, Len(buf))
Left == Len(buf) - pos

Fixed == {"u8", "u16le", "u32le", "u64le", "f32le", "u16be", "u32be", "u64be", "f32be"}
BigEndian == {"u16be", "u32be", "u64be", "f32be"}
Views == {"str", "span"}
Ops == Fixed \cup Views \cup {"skip"}

Width(op) == CASE op = "u8" -> 1
               [] op \in {"u16le", "u16be"} -> 2
               [] op \in {"u32le", "u32be", "f32le", "f32be"} -> 4
               [] op \in {"u64le", "u64be"} -> 8

\* Bytes of the value an operation delivers, least significant byte first for numbers.
Delivered(op, n) ==
  LET raw == SubSeq(buf, pos + 1, pos + n)
  IN CASE op = "skip" -> <<>>
       [] op \in BigEndian -> Reverse(raw)
       [] OTHER -> raw

\* Result of operation `op` asking for n bytes: outcome, value, offset of the returned view (-1: none).
Result(op, n) ==
  IF n <= Left
  THEN [r |-> "ok", v |-> Delivered(op, n), off |-> IF op \in Views /\ n > 0 THEN pos ELSE -1]
  ELSE [r |-> "invalid_argument", v |-> <<>>, off |-> -1]

Consume(op, n) ==
  /\ pos' = IF n <= Left THEN pos + n ELSE pos
  /\ UNCHANGED buf

Load(b) == buf' = b /\ pos' = 0

Init == buf = <<>> /\ pos = 0

-----------------------------------------------------------------------------
\* Acceptance of one recorded event.
SizeSeen(e) == e.size = Len(buf') - pos' /\ e.empty = (Len(buf') = pos')

Step(e) ==
  \/ e.op = "reset" /\ Load(<<>>)
  \/ e.op = "buf" /\ Load(e.b) /\ SizeSeen(e)
  \/ e.op = "copy" /\ UNCHANGED vars /\ SizeSeen(e)
  \/ /\ e.op \in Ops
     /\ e.op \in Fixed => e.n = Width(e.op)
     /\ [r |-> e.r, v |-> e.v, off |-> e.off] = Result(e.op, e.n)
     /\ Consume(e.op, e.n)
     /\ SizeSeen(e)
=============================================================================
