------------------------------ MODULE SignalMC -------------------------------
(* Callbacks act when called: disconnect others, connect, emit, throw.         *)
EXTENDS Signal
CONSTANTS N, Behs, MaxDepth
VARIABLES beh, hist, acted, last
S == <<vars, beh, hist, acted, last>>
\* beh: behaviour of every callback ever connected; hist: per emission what must be true at its end; acted: the running callback acted
None == "none"
MCInit == Init /\ beh = [i \in 1..N |-> None] /\ hist = <<>> /\ acted = FALSE /\ last = "sig v"
Used == {i \in 1..N : beh[i] # None}
Victim(b) == CASE b = "d1" -> 1 [] b = "d2" -> 2 [] b = "d3" -> 3 [] OTHER -> 0

TopLevel ==
  /\ frames = <<>> /\ UNCHANGED acted
  /\ \/ \E b \in Behs : LET id == Cardinality(Used) + 1 IN
          /\ id <= N /\ Connect(id) /\ beh' = [beh EXCEPT ![id] = b] /\ UNCHANGED hist
          /\ last' = "connect " \o ToString(id) \o " " \o b
     \/ \E id \in Ids(conns) : Disconnect(id) /\ last' = "disconnect " \o ToString(id) /\ UNCHANGED <<beh, hist>>
     \/ EmitBegin(<<>>) /\ last' = "emit 1" /\ hist' = <<[start |-> conns, called |-> <<>>, gone |-> {}]>> /\ UNCHANGED beh

Inner ==
  /\ frames # <<>> /\ last' = ""
  /\ \/ \E id \in Ids(conns) : /\ Call(id) /\ acted' = FALSE /\ UNCHANGED beh
                               /\ hist' = [hist EXCEPT ![Len(hist)].called = Append(@, id)]
     \/ /\ Top.running # 0 /\ ~acted
        /\ LET b == beh[Top.running] v == Victim(b) IN
           \/ /\ v # 0 /\ v \in Ids(conns) \ Running /\ Disconnect(v) /\ acted' = TRUE /\ UNCHANGED beh
              /\ hist' = [i \in DOMAIN hist |-> [hist[i] EXCEPT !.gone = @ \cup {v}]]
           \/ /\ b = "conn" /\ Cardinality(Used) < N
              /\ LET id == Cardinality(Used) + 1 IN Connect(id) /\ beh' = [beh EXCEPT ![id] = "plain"]
              /\ acted' = TRUE /\ UNCHANGED hist
           \/ /\ b = "emit" /\ Len(frames) < MaxDepth /\ EmitBegin(<<>>) /\ acted' = FALSE /\ UNCHANGED beh
              /\ hist' = Append(hist, [start |-> conns, called |-> <<>>, gone |-> {}])
     \/ /\ Top.running # 0 /\ UNCHANGED <<beh, hist>> /\ acted' = FALSE
        /\ LET b == beh[Top.running] v == Victim(b) IN
           /\ ~acted => /\ ~(v # 0 /\ v \in Ids(conns) \ Running)
                        /\ ~(b = "conn" /\ Cardinality(Used) < N)
                        /\ ~(b = "emit" /\ Len(frames) < MaxDepth)
           /\ Return(b = "throw")
     \/ \* end of an emission; the exception is caught by whoever emitted
        /\ EmitEnd(Top.failed) /\ acted' = TRUE /\ UNCHANGED beh /\ hist' = SubSeq(hist, 1, Len(hist) - 1)
MCNext == TopLevel \/ Inner
MCSpec == MCInit /\ [][MCNext]_S

NoDup(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
\* at all times a callback was called at most once by an emission, in connection order
Ordered == \A k \in DOMAIN hist : LET h == hist[k] IN
  /\ NoDup(h.called)
  /\ LET st == SelectSeq(h.called, LAMBDA x : x \in Ids(h.start)) IN
     \A i, j \in DOMAIN st : i < j => (CHOOSE n \in DOMAIN h.start : h.start[n] = st[i]) < (CHOOSE n \in DOMAIN h.start : h.start[n] = st[j])
\* when it ends normally it has called everybody connected throughout
Complete == [][ \A k \in DOMAIN hist : (Len(hist') < Len(hist) /\ k = Len(hist) /\ ~Top.failed)
                    => Ids(hist[k].start) \ hist[k].gone \subseteq Ids(hist[k].called) ]_S
\* nobody is called after having been disconnected
NotAfterwards == [][ \A k \in DOMAIN hist : (Len(hist') = Len(hist) /\ hist'[k].called # hist[k].called)
                    => LET id == hist'[k].called[Len(hist'[k].called)] IN id \in Ids(conns) /\ id \notin hist[k].gone ]_S
MCMuch == 1
Counted == DOMAIN times = Ids(conns)
Canon == NoDup(conns)
\* the replay graph shows a state once per command, whatever happened inside
=============================================================================
