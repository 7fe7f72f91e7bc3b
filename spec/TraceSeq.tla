------------------------------ MODULE TraceSeq ------------------------------
(* checks recorded event sequences of the library against Sequencer. one line of the file is one scenario *)
EXTENDS Sequencer, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES i, l, s, b
vars == <<i, l, s, b>>
H == Traces[i]
Init == \E k \in 1 .. Len(Traces) : i = k /\ l = 1 /\ s = Init0(Traces[k]) /\ b = [e |-> ""]
Next ==
  /\ l > 0
  /\ IF l > Len(H.ev) THEN
       /\ PrintT(<<"REJECT", H.id, l, "crash">>)
       /\ l' = 0 /\ UNCHANGED <<i, s, b>>
     ELSE
     LET e == H.ev[l]
         g == Guard(H, s, e, b) IN
     IF g # "" THEN
       /\ PrintT(<<"REJECT", H.id, l, g>>)
       /\ l' = 0 /\ UNCHANGED <<i, s, b>>
     ELSE IF e.e = "end" THEN
       /\ IF l = Len(H.ev) THEN PrintT(<<"ACCEPT", H.id, l, "">>) ELSE PrintT(<<"REJECT", H.id, l + 1, "crash">>)
       /\ l' = 0 /\ UNCHANGED <<i, s, b>>
     ELSE
       /\ l' = l + 1 /\ s' = Effect(H, s, e, b) /\ b' = IF e.e = "addb" THEN e ELSE b
       /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
\* Next is deterministic: one path for each scenario
=============================================================================
