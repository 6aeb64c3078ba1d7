#!/usr/bin/env python3
"""(Re)generates the trace acceptors spec/<X>Trace.tla/.cfg for every spec/<X>.tla that defines Step(e)."""
import glob, os, re
S = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
for f in sorted(glob.glob(os.path.join(S, "*.tla"))):
    x = os.path.basename(f)[:-4]
    if x.endswith(("Trace", "MC")):
        continue
    t = open(f).read()
    if not re.search(r"^Step\(e\) ==", t, re.M):
        continue
    with open(os.path.join(S, x + "Trace.tla"), "w") as o:
        o.write(f"""---- MODULE {x}Trace ----
(* Accepts a trace recorded from the real code (one JSON event per line, file named by $TRACE)
   exactly when it is a behaviour of {x}: event l has to be allowed by {x}!Step. *)
EXTENDS {x}, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == Init /\\ l = 1
TNext == l <= Len(Trace) /\\ Step(Trace[l]) /\\ l' = l + 1
TSpec == TInit /\\ [][TNext]_<<vars, l>>
\\* the runner compares this with the number of events
Report == PrintT(<<"DIAM", TLCGet("stats").diameter>>)
====
""")
    with open(os.path.join(S, x + "Trace.cfg"), "w") as o:
        o.write("SPECIFICATION TSpec\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n")
