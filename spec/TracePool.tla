------------------------------ MODULE TracePool ------------------------------
(* a recorded execution is accepted if some placement of the internal steps explains it *)
EXTENDS Pool, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES i, l, s
vars == <<i, l, s>>
H == Traces[i]
Init == \E k \in 1 .. Len(Traces) : i = k /\ l = 1 /\ s = PInit(Traces[k].w)
Observed ==
  /\ l <= Len(H.ev)
  /\ LET o == Observe(s, H.ev[l], H.leakfree = 1) IN
     /\ o.ok
     /\ l' = l + 1 /\ s' = o.s /\ UNCHANGED i
     /\ l = Len(H.ev) => IF H.ev[l].e = "end" THEN PrintT(<<"ACCEPT", H.id, l, "">>) ELSE TRUE
     /\ IOEnv.SHOW = "1" => PrintT(<<"REJECT", H.id, l + 1, "pool">>)
Internal == l <= Len(H.ev) /\ \E t \in Internals(s) : s' = t /\ UNCHANGED <<i, l>>
Next == Observed \/ Internal
Spec == Init /\ [][Next]_vars
=============================================================================
