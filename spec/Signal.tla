------------------------------- MODULE Signal --------------------------------
(* utki::signal (property C13).  Callbacks have identifiers; emissions nest.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES
  conns,    \* identifiers of connected callbacks, in order of connection
  frames,   \* emissions in progress, innermost last
  times     \* how often each connected callback has been called: a callback keeps its own state from call to call
vars == <<conns, frames, times>>
Much == 1000000 \* nobody counts further

Ids(s) == {s[i] : i \in DOMAIN s}
Without(s, id) == SelectSeq(s, LAMBDA x : x # id)
Top == frames[Len(frames)]

\* pending: callbacks this emission still has to call; late: connected during this emission, may be called once or not
\* args: emitted values; running: callback being executed (0: none)
Connect(id) ==
  /\ id \notin Ids(conns)
  /\ conns' = Append(conns, id)
  /\ times' = (id :> 0) @@ times
  /\ frames' = [i \in DOMAIN frames |-> [frames[i] EXCEPT !.late = Append(@, id)]]
\* the running callback cannot be disconnected
Running == {frames[i].running : i \in DOMAIN frames}
Disconnect(id) ==
  /\ id \in Ids(conns) \ Running
  /\ conns' = Without(conns, id)
  /\ times' = [i \in DOMAIN times \ {id} |-> times[i]]
  /\ frames' = [i \in DOMAIN frames |-> [frames[i] EXCEPT !.pending = Without(@, id), !.late = Without(@, id)]]
EmitBegin(args) ==
  /\ frames' = Append(frames, [pending |-> conns, late |-> <<>>, args |-> args, running |-> 0, failed |-> FALSE])
  /\ UNCHANGED <<conns, times>>
\* the innermost emission calls a callback
Call(id) ==
  /\ frames # <<>> /\ Top.running = 0 /\ ~Top.failed
  /\ LET f == Top
         k == IF f.pending # <<>> THEN 0 ELSE CHOOSE n \in 0..Len(f.late) : n > 0 /\ f.late[n] = id
     IN /\ IF f.pending # <<>> THEN Head(f.pending) = id ELSE id \in Ids(f.late)
        /\ frames' = [frames EXCEPT ![Len(frames)] =
              IF f.pending # <<>> THEN [f EXCEPT !.pending = Tail(@), !.running = id]
              ELSE [f EXCEPT !.late = SubSeq(@, k + 1, Len(@)), !.running = id]]
  /\ times' = [times EXCEPT ![id] = IF @ < Much THEN @ + 1 ELSE @]
  /\ UNCHANGED conns
\* the callback returns, normally or by an exception
Return(threw) ==
  /\ frames # <<>> /\ Top.running # 0
  /\ frames' = [frames EXCEPT ![Len(frames)].running = 0, ![Len(frames)].failed = threw]
  /\ UNCHANGED <<conns, times>>
EmitEnd(threw) ==
  /\ frames # <<>> /\ Top.running = 0
  /\ Top.failed = threw
  /\ ~threw => Top.pending = <<>>
  /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
  /\ UNCHANGED <<conns, times>>

Init == conns = <<>> /\ frames = <<>> /\ times = <<>>
Reset == conns' = <<>> /\ frames' = <<>> /\ times' = <<>>
-----------------------------------------------------------------------------
Seen(e) == e.size = Len(conns') /\ e.empty = (conns' = <<>>)
Step(e) ==
  \/ e.op = "reset" /\ Reset
  \/ e.op = "connect" /\ Connect(e.id) /\ Seen(e)
  \/ e.op = "disconnect" /\ Disconnect(e.id) /\ Seen(e)
  \/ e.op = "emit" /\ EmitBegin(e.args) /\ Seen(e)
  \/ e.op = "call" /\ Call(e.id) /\ e.args = Top.args /\ e.times = times'[e.id] /\ Seen(e)
  \/ e.op = "return" /\ Return(e.threw) /\ Seen(e)
  \/ e.op = "emitted" /\ EmitEnd(e.threw) /\ Seen(e)
=============================================================================
