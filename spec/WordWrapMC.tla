----------------------------- MODULE WordWrapMC -----------------------------
(* The wrapping algorithm as a state machine: it scans the text once, tracking the current line, the current run of    *)
(* spaces or non-spaces, and whether a word has ended on the line.  Whenever it is done, its result has to be Allowed.  *)
EXTENDS WordWrap
CONSTANTS Alphabet, MaxLen, Widths
VARIABLES text, width, i, lb, sb, ended, lines

S == <<ok, text, width, i, lb, sb, ended, lines>>
MCInit == /\ Init
          /\ text \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
          /\ width \in Widths
          /\ i = 0 /\ lb = 0 /\ sb = 0 /\ ended = FALSE /\ lines = <<>>

Cut(a, b) == SubSeq(text, a + 1, b)

\* what happens when the line is full before a character other than a newline
Break == IF At(text, i) # 10 /\ i - lb = width
         THEN IF At(text, sb) = 32
              THEN IF ended THEN [ls |-> Append(lines, Cut(lb, sb)), lb |-> sb + 1, sb |-> sb, en |-> FALSE]
                            ELSE [ls |-> lines, lb |-> i, sb |-> i, en |-> FALSE]
              ELSE IF ended THEN [ls |-> Append(lines, Cut(lb, sb - 1)), lb |-> sb, sb |-> sb, en |-> FALSE]
                            ELSE [ls |-> Append(lines, Cut(lb, i)), lb |-> i, sb |-> i, en |-> FALSE]
         ELSE [ls |-> lines, lb |-> lb, sb |-> sb, en |-> ended]

Scan == /\ i < Len(text)
        /\ LET b == Break  c == At(text, i) IN
             CASE c = 32 -> /\ IF At(text, b.sb) # 32 THEN sb' = i /\ ended' = TRUE ELSE sb' = b.sb /\ ended' = b.en
                            /\ lines' = b.ls /\ lb' = b.lb
               [] c = 10 -> lines' = Append(b.ls, Cut(b.lb, i)) /\ lb' = i + 1 /\ sb' = i + 1 /\ ended' = FALSE
               [] OTHER  -> /\ sb' = IF At(text, b.sb) = 32 THEN i ELSE b.sb
                            /\ lines' = b.ls /\ lb' = b.lb /\ ended' = b.en
        /\ i' = i + 1
        /\ UNCHANGED <<ok, text, width>>

Finish == /\ i = Len(text)
          /\ i' = i + 1
          /\ lines' = IF sb # Len(text) /\ At(text, sb) = 32
                      THEN (IF ended THEN Append(lines, Cut(lb, sb)) ELSE lines)
                      ELSE Append(lines, Cut(lb, Len(text)))
          /\ UNCHANGED <<ok, text, width, lb, sb, ended>>
MCNext == Scan \/ Finish
MCSpec == MCInit /\ [][MCNext]_S

Done == i = Len(text) + 1
Correct == Done => Allowed(text, width, lines)
InBounds == lb <= i /\ sb <= i /\ lb - sb <= 1 /\ i - lb <= width + 1
=============================================================================
