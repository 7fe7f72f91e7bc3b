------------------------------- MODULE MC_Mix -------------------------------
(* laws of compositions: grouping, order of members, nesting and maps do not change what a part contributes, and the sum of the parts rendered
   separately and in any blocks is the whole. all small leaves, starts and divisions *)
EXTENDS Mix
CONSTANTS Vals, MaxStart, Muls
VARIABLES a, b, s, t, u, m, pos, got
vars == <<a, b, s, t, u, m, pos, got>>
Leaf(v) == [k |-> "noise", n |-> Len(v)]
Seqs == {<<x>> : x \in Vals} \cup {<<x, y>> : x, y \in Vals}
Root(nodes, roots) == LET H == [cc |-> 1, nodes |-> nodes, roots |-> roots] IN Total(H, [j \in DOMAIN nodes |-> IF j = 1 THEN <<a>> ELSE IF j = 2 THEN <<b>> ELSE <<>>])[1]
L == <<Leaf(a), Leaf(b)>>
G(kids) == [k |-> "group", kids |-> kids]
M(kid) == [k |-> "map", kid |-> kid, mul |-> m]
Flat == Root(L, <<<<1, s + u>>, <<2, t + u>>>>)
Same(x, y) == \A p \in 1 .. 3 * MaxStart + 4 : At(x, p) = At(y, p)
Laws ==
  /\ Same(Flat, Root(L, <<<<2, t + u>>, <<1, s + u>>>>))
  /\ Same(Flat, Root(L \o <<G(<<<<1, s>>, <<2, t>>>>)>>, <<<<3, u>>>>))
  /\ Same(Flat, Root(L \o <<G(<<<<1, s>>>>), G(<<<<3, 0>>, <<2, t>>>>)>>, <<<<4, u>>>>))
  /\ Same(Flat, Root(L \o <<G(<<<<1, s>>>>)>>, <<<<2, t + u>>, <<3, u>>>>))
  /\ Same(Root(L \o <<G(<<<<1, s>>, <<2, t>>>>), M(3)>>, <<<<4, u>>>>), Root(L \o <<M(1), M(2)>>, <<<<3, s + u>>, <<4, t + u>>>>))
  /\ Same(Root(L \o <<G(<<<<1, s>>, <<2, t>>>>), M(3)>>, <<<<4, u>>>>), [p \in 1 .. Len(Flat) |-> m * Flat[p]])
  /\ \A p \in 1 .. Len(Flat) : Flat[p] = At(a, p - s - u) + At(b, p - t - u)
Init == a \in Seqs /\ b \in Seqs /\ s \in 0 .. MaxStart /\ t \in 0 .. MaxStart /\ u \in 0 .. MaxStart /\ m \in Muls /\ pos = 0 /\ got = <<>>
\* blocks of any size, each the sum of what the leaves give for their part of it
Next == pos < Len(Flat) /\ \E n \in 1 .. Len(Flat) - pos :
  /\ got' = got \o [k \in 1 .. n |-> (LET p == pos + k IN At(a, p - s - u) + At(b, p - t - u))] /\ pos' = pos + n /\ UNCHANGED <<a, b, s, t, u, m>>
Spec == Init /\ [][Next]_vars
Prefix == got = SubSeq(Flat, 1, pos)
=============================================================================
