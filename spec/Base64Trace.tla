---- MODULE Base64Trace ----
(* Accepts a trace recorded from the real code (one JSON event per line, file named by $TRACE)
   exactly when it is a behaviour of Base64: event l has to be allowed by Base64!Step. *)
EXTENDS Base64, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<vars, l>>
\* the runner compares this with the number of events
Report == PrintT(<<"DIAM", TLCGet("stats").diameter>>)
====
