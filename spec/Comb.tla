-------------------------------- MODULE Comb --------------------------------
(* what permutations, compositions and digit sequences are, and how many there are *)
EXTENDS Integers, Sequences, FiniteSets
Range(a) == {a[i] : i \in DOMAIN a}
RECURSIVE Fact(_), Power(_, _), Falling(_, _), Total(_), Value(_, _)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
Falling(n, k) == IF k = 0 THEN 1 ELSE n * Falling(n - 1, k - 1)
Total(a) == IF a = <<>> THEN 0 ELSE a[1] + Total(Tail(a))
(* the number that is written with the digits, lowest first *)
Value(w, b) == IF w = <<>> THEN 0 ELSE w[1] + b * Value(Tail(w), b)
IsPermutation(p, set) == Len(p) = Len(set) /\ Range(p) = Range(set)
AllPermutations(o, set) == /\ \A i \in DOMAIN o : IsPermutation(o[i], set)
                           /\ Len(o) = Fact(Len(set)) /\ Cardinality(Range(o)) = Len(o)
IsComposition(p, n) == Total(p) = n /\ \A i \in DOMAIN p : p[i] > 0
AllCompositions(o, n) == /\ \A i \in DOMAIN o : IsComposition(o[i], n)
                         /\ Len(o) = Power(2, n - 1) /\ Cardinality(Range(o)) = Len(o)
IsWord(w, b, n) == Len(w) = n /\ \A i \in DOMAIN w : 0 <= w[i] /\ w[i] < b
(* the next number: the lowest digit that is not the highest is incremented, the digits before it start again *)
Follows(v, w, b) ==
  LET low == {i \in DOMAIN v : v[i] < b - 1}  k == IF low = {} THEN Len(v) + 1 ELSE CHOOSE i \in low : \A j \in low : i <= j IN
  IsWord(w, b, Len(v)) /\ \A i \in DOMAIN v : w[i] = IF i < k THEN 0 ELSE IF i = k THEN v[i] + 1 ELSE v[i]
(* w is the number v plus n, without digits after the last *)
RECURSIVE IsPlusFrom(_, _, _, _, _)
IsPlusFrom(v, w, n, b, k) == k > Len(v) \/ (w[k] = (v[k] + n) % b /\ IsPlusFrom(v, w, (v[k] + n) \div b, b, k + 1))
IsPlus(v, w, n, b) == Len(v) = Len(w) /\ IsPlusFrom(v, w, n, b, 1)
(* conformance *)
Init0(H) == 0
Memory(e) == IF e.live # 0 THEN "memory" ELSE IF e.inj = 1 /\ e.r = 0 THEN "unreported" ELSE IF e.inj = 0 /\ e.r # 0 THEN "status" ELSE ""
Judge(e) ==
  CASE e.e = "perms" -> IF Memory(e) # "" THEN Memory(e) ELSE IF e.set2 # e.set THEN "input" ELSE IF e.r # 0 THEN "" ELSE IF Len(e.o) = e.size /\ AllPermutations(e.o, e.set) THEN "" ELSE "permutations"
    [] e.e = "comps" -> IF Memory(e) # "" THEN Memory(e) ELSE IF e.r # 0 THEN "" ELSE IF Len(e.o) = e.size /\ AllCompositions(e.o, e.sum) THEN "" ELSE "compositions"
    \* large series: all are of the required kind and different, and as many as there are
    [] e.e = "permsum" -> IF e.r = 0 /\ e.bad = 0 /\ e.size = Fact(e.n) /\ e.distinct = e.size THEN "" ELSE "permutations"
    [] e.e = "compsum" -> IF e.r = 0 /\ e.bad = 0 /\ e.size = Power(2, e.n - 1) /\ e.distinct = e.size THEN "" ELSE "compositions"
    [] e.e = "seqsum" -> IF e.off = 0 /\ \A k \in DOMAIN e.at : IsPlus(e.w, e.o[k], e.at[k], e.base) THEN "" ELSE "sequences"
    [] e.e = "incs" -> IF \A i \in DOMAIN e.o : Follows(IF i = 1 THEN e.w ELSE e.o[i - 1], e.o[i], e.base) THEN "" ELSE "increment"
    [] e.e = "seqs" -> IF Len(e.o) = e.words /\ e.o[1] = e.w /\ \A i \in 2 .. Len(e.o) : Follows(e.o[i - 1], e.o[i], e.base) THEN "" ELSE "sequences"
    [] e.e = "count" -> IF e.v = (CASE e.fn = 0 -> (IF e.x = 0 THEN 0 ELSE Power(e.x, e.y)) [] e.fn = 1 -> Falling(e.x, e.y) [] e.fn = 2 -> Power(2, e.x - 1) [] e.fn = 3 -> Power(e.x, e.y) [] OTHER -> Fact(e.x)) THEN "" ELSE "count"
    [] e.e = "match" -> LET k == {j \in DOMAIN e.d : e.i % e.d[j] = 0} IN IF e.v = (IF k = {} THEN Len(e.d) ELSE CHOOSE j \in k : \A m \in k : j <= m) - 1 THEN "" ELSE "match"
    [] e.e = "end" -> ""
    [] OTHER -> "crash"
Observe(H, s, e) == [g |-> Judge(e), s |-> s]
=============================================================================
