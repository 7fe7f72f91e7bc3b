------------------------------- MODULE MC_Noise -------------------------------
(* sp_event_block_generate for all divisions into calls: each position is generated once, at its place in the output, and
   the parameters of a position do not depend on divisions at multiples of the resolution *)
EXTENDS Noise, TLC
CONSTANTS Dur, ResMax, Unaligned
VARIABLES pos, res, a, b, i, at, ok, aligned
vars == <<pos, res, a, b, i, at, ok, aligned>>
\* at: position -> parameter index
Init == pos = 0 /\ res \in 1 .. ResMax /\ a = 0 /\ b = 0 /\ i = 0 /\ at = <<>> /\ ok = TRUE /\ aligned = TRUE
Call == /\ a + i >= b /\ b < Dur /\ \E n \in 1 .. Dur - b : a' = b /\ b' = b + n /\ aligned' = (aligned /\ (b' % res = 0 \/ b' = Dur))
        /\ (Unaligned \/ aligned') /\ i' = 0 /\ UNCHANGED <<pos, res, at, ok>>
\* full parts of the call, then the rest
Part == LET r == Min(res, b - a)  initial == ((b - a) \div r) * r  n == IF i < initial THEN r ELSE (b - a) % r IN
        /\ a + i < b
        /\ ok' = (ok /\ pos = a + i /\ n > 0 /\ i + n <= b - a /\ (aligned => (a + i) % res = 0) /\ Parts(a, b, res)[(i \div r) + 1] = <<a + i, a + i + n>>)
        /\ at' = at \o [k \in 1 .. n |-> a + i] /\ pos' = pos + n /\ i' = i + n /\ UNCHANGED <<res, a, b, aligned>>
Next == Call \/ Part
Spec == Init /\ [][Next]_vars
Ok == ok
Aligned == aligned => \A k \in DOMAIN at : at[k] = ((k - 1) \div res) * res
Complete == pos <= Dur /\ (a + i >= b => pos = b)
=============================================================================
