------------------------------- MODULE MC_Comb -------------------------------
(* algorithms: Heap's algorithm for permutations, ascending-first compositions (Kelleher), increments.
   out collects what was generated; when the algorithm ends everything was generated once *)
EXTENDS Comb
CONSTANTS N, K
VARIABLES kind, n, a, c, i, x, y, out, pc
vars == <<kind, n, a, c, i, x, y, out, pc>>
Init == \/ kind = "heap" /\ n \in 1 .. N /\ a = [j \in 1 .. n |-> j] /\ c = [j \in 1 .. n |-> 0] /\ i = 0 /\ x = 0 /\ y = 0 /\ out = <<a>> /\ pc = "loop"
        \/ kind = "comp" /\ n \in 1 .. K /\ a = [j \in 0 .. n |-> IF j = 1 THEN n ELSE 0] /\ c = <<>> /\ i = 1 /\ x = 0 /\ y = 0 /\ out = <<>> /\ pc = "loop"
        \/ kind = "inc" /\ n \in 1 .. 4 /\ x \in 1 .. 3 /\ a = [j \in 1 .. x |-> 0] /\ c = <<>> /\ i = 1 /\ y = 0 /\ out = <<>> /\ pc = "loop"
Exchange(f, j, k) == [f EXCEPT ![j] = f[k], ![k] = f[j]]
Heap == kind = "heap" /\ pc = "loop" /\ UNCHANGED <<kind, n, x, y>> /\
  IF i >= n THEN pc' = "done" /\ UNCHANGED <<a, c, i, out>>
  ELSE IF c[i + 1] < i THEN a' = (IF i % 2 = 1 THEN Exchange(a, c[i + 1] + 1, i + 1) ELSE Exchange(a, 1, i + 1)) /\ c' = [c EXCEPT ![i + 1] = @ + 1] /\ i' = 0 /\ out' = Append(out, a') /\ UNCHANGED pc
  ELSE c' = [c EXCEPT ![i + 1] = 0] /\ i' = i + 1 /\ UNCHANGED <<a, out, pc>>
Comp == kind = "comp" /\ UNCHANGED <<kind, n, c>> /\
  \/ pc = "loop" /\ i = 0 /\ pc' = "done" /\ UNCHANGED <<a, i, x, y, out>>
  \/ pc = "loop" /\ i # 0 /\ x' = a[i - 1] + 1 /\ y' = a[i] - 1 /\ i' = i - 1 /\ pc' = "fill" /\ UNCHANGED <<a, out>>
  \/ pc = "fill" /\ 1 <= y /\ a' = [a EXCEPT ![i] = x] /\ x' = 1 /\ y' = y - 1 /\ i' = i + 1 /\ UNCHANGED <<out, pc>>
  \/ pc = "fill" /\ 1 > y /\ a' = [a EXCEPT ![i] = x + y] /\ out' = Append(out, [j \in 1 .. i + 1 |-> a'[j - 1]]) /\ pc' = "loop" /\ UNCHANGED <<i, x, y>>
Inc == kind = "inc" /\ UNCHANGED <<kind, n, c, x, y>> /\
  \/ pc = "loop" /\ Len(out) = Power(n, x) /\ pc' = "done" /\ UNCHANGED <<a, i, out>>
  \/ pc = "loop" /\ Len(out) < Power(n, x) /\ out' = Append(out, a) /\ pc' = "digit" /\ i' = 1 /\ UNCHANGED a
  \/ pc = "digit" /\ (IF i > x THEN pc' = "loop" /\ UNCHANGED <<a, i>> ELSE IF a[i] < n - 1 THEN a' = [a EXCEPT ![i] = @ + 1] /\ pc' = "loop" /\ UNCHANGED i ELSE a' = [a EXCEPT ![i] = 0] /\ i' = i + 1 /\ UNCHANGED pc) /\ UNCHANGED out
Next == Heap \/ Comp \/ Inc
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Complete == pc = "done" => CASE kind = "heap" -> AllPermutations(out, [j \in 1 .. n |-> j])
                             [] kind = "comp" -> AllCompositions(out, n)
                             [] OTHER -> Len(out) = Power(n, x) /\ Cardinality(Range(out)) = Len(out) /\ \A j \in DOMAIN out : IsWord(out[j], n, x)
Bounds == kind = "comp" /\ pc = "fill" => i <= n
End == <>(pc = "done")
==============================================================================
