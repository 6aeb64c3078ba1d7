--------------------------- MODULE DeserializerMC ---------------------------
EXTENDS Deserializer
CONSTANTS MaxLen, Counts
VARIABLES last, out, outcome

\* out: everything delivered or skipped so far, in buffer order;  outcome: result of the latest operation
MCInit == \E len \in 0..MaxLen :
            /\ buf = [i \in 1..len |-> i]
            /\ pos = 0 /\ out = <<>> /\ outcome = "ok"
            /\ last = "bufn " \o ToString(len)

Text(op, n) == IF op \in Fixed THEN op ELSE op \o " " \o ToString(n)

Do(op, n) ==
  LET res == Result(op, n) IN
  /\ Consume(op, n)
  /\ outcome' = res.r
  /\ out' = IF res.r # "ok" THEN out
            ELSE out \o (IF op = "skip" THEN SubSeq(buf, pos + 1, pos + n)
                         ELSE IF op \in BigEndian THEN Reverse(res.v) ELSE res.v)
  /\ last' = Text(op, n)

MCNext == \/ \E op \in Fixed : Do(op, Width(op))
          \/ \E op \in Views \cup {"skip"} : \E n \in Counts : Do(op, n)

MCSpec == MCInit /\ [][MCNext]_<<vars, last, out, outcome>>

\* C05 on the model
Lossless == out \o Rest = buf
AllOrNothing == [][ /\ outcome' # "ok" => pos' = pos /\ out' = out
                    /\ outcome' = "ok" => Len(out') - Len(out) = pos' - pos
                    /\ pos' >= pos /\ pos' <= Len(buf) ]_<<vars, last, out, outcome>>
=============================================================================
