------------------------------- MODULE MC_Sort -------------------------------
(* quicksort with a pivot index that follows its element, for all arrays up to a size. stack: ranges left to sort.
   Unbounded: continue scanning after the ends have met (reads outside of the array) *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, V, Unbounded
VARIABLES in, a, stack, pc, l, r, p
vars == <<in, a, stack, pc, l, r, p>>
Init == \E n \in 1 .. N : in \in [1 .. n -> 1 .. V] /\ a = in /\ stack = <<<<1, n>>>> /\ pc = "take" /\ l = 0 /\ r = 0 /\ p = 0
Take == pc = "take" /\ stack # <<>> /\ LET x == stack[Len(stack)] IN
  IF x[2] <= x[1] THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<in, a, pc, l, r, p>>
  ELSE l' = x[1] /\ r' = x[2] /\ p' = x[1] + (x[2] - x[1]) \div 2 /\ pc' = "l" /\ UNCHANGED <<in, a, stack>>
Left == pc = "l" /\ (IF a[l] < a[p] THEN l' = l + 1 /\ UNCHANGED pc ELSE pc' = "r" /\ UNCHANGED l) /\ UNCHANGED <<in, a, stack, r, p>>
Right == pc = "r" /\ (IF a[p] < a[r] THEN r' = r - 1 /\ UNCHANGED pc ELSE pc' = "swap" /\ UNCHANGED r) /\ UNCHANGED <<in, a, stack, l, p>>
Swap == pc = "swap" /\ UNCHANGED in /\
  IF l > r THEN LET x == stack[Len(stack)] IN stack' = SubSeq(stack, 1, Len(stack) - 1) \o <<<<x[1], r>>, <<l, x[2]>>>> /\ pc' = "take" /\ UNCHANGED <<a, l, r, p>>
  ELSE /\ p' = (IF p = l THEN r ELSE IF p = r THEN l ELSE p) /\ a' = [a EXCEPT ![l] = a[r], ![r] = a[l]] /\ l' = l + 1 /\ r' = r - 1
       /\ pc' = (IF l + 1 <= r - 1 \/ Unbounded THEN "l" ELSE "swap") /\ UNCHANGED stack
Next == Take \/ Left \/ Right \/ Swap
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Inside == pc \in {"l", "r"} => (pc = "l" => l \in DOMAIN a) /\ (pc = "r" => r \in DOMAIN a)
Sorted == pc = "take" /\ stack = <<>> => (\A i \in 2 .. Len(a) : a[i - 1] <= a[i]) /\ \A v \in 1 .. V : Cardinality({i \in DOMAIN a : a[i] = v}) = Cardinality({i \in DOMAIN in : in[i] = v})
Done == <>(pc = "take" /\ stack = <<>>)
==============================================================================
