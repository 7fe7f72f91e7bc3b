------------------------------- MODULE MC_Path -------------------------------
(* spline_path_get with its remembered segment: every sequence of reads writes each requested position, from the segment that covers it *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Size, Segments, Reads, ResetBack   \* ResetBack FALSE: the remembered segment is not reset for earlier starts (a mutation)
VARIABLES xs, cur, prev, n, ok
vars == <<xs, cur, prev, n, ok>>
\* ends of segments, which can be empty
Init == xs \in {s \in [1 .. Segments + 1 -> 0 .. Size] : s[1] = 0 /\ s[Segments + 1] = Size /\ \A k \in 1 .. Segments : s[k] <= s[k + 1]}
        /\ cur = 1 /\ prev = 0 /\ n = 0 /\ ok = TRUE
\* segments from the remembered one
RECURSIVE Loop(_, _, _, _, _)
Loop(i, c, a, b, w) ==
  IF i > Segments THEN [c |-> c, w |-> w]
  ELSE IF xs[i] > b THEN [c |-> c, w |-> w]
  ELSE IF xs[i + 1] < a THEN Loop(i + 1, i, a, b, w)
  ELSE Loop(i + 1, c, a, b, [p \in a .. b - 1 |-> IF p >= (IF xs[i] < a THEN a ELSE xs[i]) /\ p < (IF xs[i + 1] > b THEN b ELSE xs[i + 1]) THEN i ELSE w[p]])
Next == /\ n < Reads /\ n' = n + 1
        /\ \E a \in 0 .. Size - 1 : \E b \in a .. Size :
             LET c0 == IF ResetBack /\ a < prev THEN 1 ELSE cur
                 r == Loop(c0, c0, a, b, [p \in a .. b - 1 |-> 0])
             IN /\ cur' = r.c /\ prev' = a
                /\ ok' = (\A p \in a .. b - 1 : r.w[p] # 0 /\ xs[r.w[p]] <= p /\ p < xs[r.w[p] + 1])
        /\ UNCHANGED xs
Spec == Init /\ [][Next]_vars
Ok == ok
=============================================================================
