-------------------------------- MODULE MC_Tools --------------------------------
(* the pointer algorithm of queues arrives at the sequence as specified, and laws of paths and directories.
   0 is the null pointer, -1 not in the queue *)
EXTENDS Tools
CONSTANTS Nodes, Length, Fault
VARIABLES next, first, last, size, q
vars == <<next, first, last, size, q>>
Node == 1 .. Nodes
Init == next = [n \in Node |-> -1] /\ first = 0 /\ last = 0 /\ size = 0 /\ q = <<>>
Enq(n) == /\ n \notin Set(q) /\ q' = Append(q, n) /\ size' = size + 1 /\ last' = n
          /\ first' = (IF first # 0 THEN first ELSE n) /\ next' = [k \in Node |-> IF k = n THEN 0 ELSE IF first # 0 /\ k = last THEN n ELSE next[k]]
Deq == /\ size > 0 /\ q' = Tail(q) /\ size' = size - 1 /\ first' = next[first] /\ last' = (IF next[first] = 0 /\ Fault # "last" THEN 0 ELSE last) /\ UNCHANGED next
RECURSIVE Before(_, _)
Before(n, c) == IF c = 0 THEN -1 ELSE IF c = n THEN 0 ELSE LET b == Before(n, next[c]) IN IF b = 0 THEN c ELSE b
\* -1: not found, 0: first
Remove(n) == LET b == IF first = n THEN 0 ELSE Before(n, first) IN
  IF b = -1 THEN UNCHANGED vars ELSE
  /\ q' = Drop(q, CHOOSE k \in DOMAIN q : q[k] = n) /\ size' = size - 1
  /\ first' = (IF b = 0 THEN next[n] ELSE first) /\ next' = [k \in Node |-> IF b # 0 /\ k = b THEN next[n] ELSE next[k]]
  /\ last' = (IF next[n] = 0 /\ Fault # "remove" THEN b ELSE last)
Next == (\E n \in Node : Enq(n) \/ Remove(n)) \/ Deq
Spec == Init /\ [][Next]_vars
RECURSIVE Follow(_, _)
Follow(n, limit) == IF n \notin Node \/ limit = 0 THEN <<>> ELSE <<n>> \o Follow(next[n], limit - 1)
Fifo == Follow(first, Nodes + 1) = q /\ size = Len(q)
Ends == IF q = <<>> THEN first = 0 /\ last = 0 ELSE first = q[1] /\ last = q[Len(q)]
\* laws
Strings == UNION {[1 .. n -> {Slash, Dot, 97}] : n \in 0 .. Length}
PathLaws == q = <<>> => \A a \in Strings :
  /\ Dirname(a) # <<>> /\ Dirname(WithSlash(a)) = (IF a = <<>> THEN <<Dot>> ELSE Dirname(a)) /\ WithSlash(WithSlash(a)) = WithSlash(a)
  /\ a # <<>> => (Dirname(a) = <<Slash>> \/ Dirname(a)[Len(Dirname(a))] # Slash) /\ (Len(Dirname(a)) <= Len(a))
  \* the parent of a longer path is the path
  /\ (a # <<>> /\ a[Len(a)] # Slash) => Dirname(WithSlash(a) \o <<97>>) = a
Paths == UNION {[1 .. n -> {1, 2, -1}] : n \in 0 .. 3}
DirLaws == q = <<>> => \A p \in Paths, f \in {{}, {<<2>>}, {<<1, 2>>}} : LET x == Ensure({<<>>}, f, <<>>, p) IN
  /\ \A d \in x[2] : d = <<>> \/ SubSeq(d, 1, Len(d) - 1) \in x[2]
  /\ x[2] \cap f = {} /\ (f = {} => x[1]) /\ Ensure(x[2], f, <<>>, p) = x
=================================================================================
