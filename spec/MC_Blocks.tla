-------------------------------- MODULE MC_Blocks --------------------------------
(* the pointer algorithm of event lists arrives at the list as specified, and laws of block views and range parts.
   0 is the null pointer. Fault removes a step of the algorithm to see that the invariants notice *)
EXTENDS Blocks
CONSTANTS Nodes, Starts, Fault
VARIABLES prev, next, head, start, q, asc
vars == <<prev, next, head, start, q, asc>>
Node == 1 .. Nodes
Init == prev = [n \in Node |-> -1] /\ next = [n \in Node |-> -1] /\ head = 0 /\ start = [n \in Node |-> 0] /\ q = <<>> /\ asc = FALSE
Unused == {n \in Node : prev[n] = -1}
\* first element from c whose start is not greater, or the last one
RECURSIVE Find(_, _)
Find(c, s) == IF start[c] <= s THEN c ELSE IF next[c] = 0 THEN 0 - c ELSE Find(next[c], s)
Add(n, s) ==
  /\ ~asc /\ start' = [start EXCEPT ![n] = s] /\ UNCHANGED asc
  /\ IF head = 0 THEN prev' = [prev EXCEPT ![n] = 0] /\ next' = [next EXCEPT ![n] = 0] /\ head' = n /\ q' = <<<<n, s>>>>
     ELSE LET f == Find(head, s) IN
       IF f < 0 THEN prev' = [prev EXCEPT ![n] = 0 - f] /\ next' = [next EXCEPT ![n] = 0, ![0 - f] = n] /\ UNCHANGED head /\ q' = Append(q, <<n, s>>)
       ELSE LET p == CHOOSE k \in DOMAIN q : q[k][1] = f IN
         /\ q' = SubSeq(q, 1, p - 1) \o <<<<n, s>>>> \o SubSeq(q, p, Len(q))
         /\ prev' = [prev EXCEPT ![n] = prev[f], ![f] = IF Fault = "previous" THEN @ ELSE n]
         /\ next' = [k \in Node |-> IF k = n THEN f ELSE IF f # head /\ k = prev[f] THEN n ELSE next[k]]
         /\ head' = IF f = head /\ Fault # "head" THEN n ELSE head
Remove(n) ==
  /\ head' = IF prev[n] = 0 THEN next[n] ELSE head
  /\ next' = [k \in Node |-> IF k = n THEN -1 ELSE IF k = prev[n] THEN next[n] ELSE next[k]]
  /\ prev' = [k \in Node |-> IF k = n THEN -1 ELSE IF k = next[n] /\ Fault # "remove" THEN prev[n] ELSE prev[k]]
  /\ q' = Drop(q, CHOOSE k \in DOMAIN q : q[k][1] = n) /\ UNCHANGED <<start, asc>>
Reverse ==
  /\ asc' = (~asc /\ q # <<>>) /\ q' = Rev(q) /\ UNCHANGED start
  /\ prev' = [k \in Node |-> IF k \in Unused THEN -1 ELSE next[k]] /\ next' = [k \in Node |-> IF k \in Unused THEN -1 ELSE IF Fault = "reverse" /\ prev[k] = 0 THEN next[k] ELSE prev[k]]
  /\ head' = IF q = <<>> THEN 0 ELSE q[Len(q)][1]
Next == (\E n \in Unused, s \in Starts : Add(n, s)) \/ (\E n \in Node \ Unused : Remove(n)) \/ Reverse
Spec == Init /\ [][Next]_vars
RECURSIVE Follow(_, _, _)
Follow(f, n, limit) == IF n \notin Node \/ limit = 0 THEN <<>> ELSE <<<<n, start[n]>>>> \o Follow(f, f[n], limit - 1)
Forward == Follow(next, head, Nodes + 1) = q
Backward == q = <<>> \/ Follow(prev, q[Len(q)][1], Nodes + 1) = Rev(q)
Order == IF asc THEN Sorted(Rev(q)) ELSE Sorted(q) \/ Len(q) < 2
Insertion == [][Len(q') > Len(q) => \E n \in Node, s \in Starts : Inserted(q, <<n, s>>, q')]_vars
\* laws of blocks
S0 == [heap |-> None, views |-> None]
Laws == q = <<>> => \A size \in 0 .. 3, o1 \in 0 .. 2, o2 \in 0 .. 2 : o1 + o2 <= size =>
  LET s == Fill(New(New(S0, 0, 2, size), 1, 2, 3), 0, 7)
      a == Offset(Offset(s, 2, 0, o1), 3, 2, o2)
      b == Offset(s, 3, 0, o1 + o2) IN
  /\ a.views[3] = b.views[3] /\ a.heap = s.heap
  /\ Zero(a, 3).heap = [s.heap EXCEPT ![0] = [c \in 1 .. 2 |-> [k \in 1 .. size |-> IF k > o1 + o2 THEN 0 ELSE @[c][k]]]]
  /\ Copy(a, 3, 1).heap[0] = s.heap[0] /\ Zero(Zero(a, 3), 3) = Zero(a, 3) /\ DOMAIN Free(a, 0).views = {1}
PartLaws == q = <<>> => \A d \in 0 .. 9, res \in 1 .. 10 : LET p == Parts(d, res, 0)
  T[k \in 0 .. Len(p)] == IF k = 0 THEN 0 ELSE T[k - 1] + p[k][1] IN
  /\ T[Len(p)] = d /\ (\A k \in DOMAIN p : p[k][2] = T[k - 1] /\ p[k][1] \in 1 .. res)
  \* the runs are the parts
  /\ d > 0 => \A n \in 0 .. Len(p) : LET g == Runs(d, Min(res, d), n) IN
       /\ (LET U[k \in 0 .. Len(g)] == IF k = 0 THEN 0 ELSE U[k - 1] + g[k][1] IN U[Len(g)] = n)
       /\ \A k \in DOMAIN g, m \in 1 .. n : ((m <= g[k][1] /\ k = 1) \/ (m = n /\ k = Len(g) /\ k = 2)) => p[m] = <<g[k][2], g[k][3] + (IF k = 1 THEN (m - 1) * g[k][2] ELSE 0)>>
==================================================================================
