------------------------------ MODULE TraceFault ------------------------------
(* checks recorded event sequences against Fault. one line of the file is one scenario *)
EXTENDS Fault, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES i, l, s
vars == <<i, l, s>>
H == Traces[i]
Init == \E k \in 1 .. Len(Traces) : i = k /\ l = 1 /\ s = Init0(Traces[k])
Next ==
  /\ l > 0
  /\ IF l > Len(H.ev) THEN PrintT(<<"REJECT", H.id, l, "crash">>) /\ l' = 0 /\ UNCHANGED <<i, s>>
     ELSE
     LET o == Observe(H, s, H.ev[l]) IN
     IF o.g # "" THEN PrintT(<<"REJECT", H.id, l, o.g>>) /\ l' = 0 /\ UNCHANGED <<i, s>>
     ELSE IF H.ev[l].e = "end" THEN
       /\ (IF l = Len(H.ev) THEN PrintT(<<"ACCEPT", H.id, l, "">>) ELSE PrintT(<<"REJECT", H.id, l + 1, "crash">>))
       /\ l' = 0 /\ UNCHANGED <<i, s>>
     ELSE l' = l + 1 /\ s' = o.s /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
=============================================================================
