------------------------------ MODULE FormatMC ------------------------------
(* The two-buffer algorithm behind formatted strings: a first attempt into a fixed buffer of Cap characters (one of them *)
(* for the terminator), and, when it does not fit, a second one into a buffer of the exact size; the argument list has to *)
(* be re-initialised between the attempts.  Checked for every result length around the capacity.                        *)
EXTENDS Format
CONSTANTS Cap, MaxLen
VARIABLES n, state, size, out, args
\* n: length of the full result; out: characters delivered; args: argument list fresh?
MCInit == Init /\ n \in 0..MaxLen /\ state = "first" /\ size = Cap /\ out = -1 /\ args = "fresh"
Attempt == /\ state \in {"first", "second"} /\ args = "fresh"
           /\ args' = "used"
           /\ IF n >= size THEN state' = "grow" /\ UNCHANGED <<out>>
                           ELSE state' = "done" /\ out' = n
           /\ UNCHANGED <<ok, n, size>>
Grow == state = "grow" /\ state' = "second" /\ size' = n + 1 /\ args' = "fresh" /\ UNCHANGED <<ok, n, out>>
MCNext == Attempt \/ Grow
MCSpec == MCInit /\ [][MCNext]_<<ok, n, state, size, out, args>> /\ WF_<<ok, n, state, size, out, args>>(MCNext)
Complete == state = "done" => out = n
Fits == state = "second" => n < size
Terminates == <>(state = "done")
=============================================================================
