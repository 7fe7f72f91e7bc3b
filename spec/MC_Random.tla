------------------------------ MODULE MC_Random ------------------------------
(* why the draws are uniform and independent of how they are grouped, on a small generator.
   a state machine draws in groups from two states; lemmas about bounded draws, discrete distributions and shuffling are checked for all small cases *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Word, Draws, Weights, Shuffled
VARIABLES state, drawn
vars == <<state, drawn>>
Step(x) == (5 * x + 3) % 16
RECURSIVE After(_, _), Take(_, _)
After(x, n) == IF n = 0 THEN x ELSE After(Step(x), n - 1)
Take(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Take(Step(x), n - 1)
Init == state \in [{1, 2} -> {1, 6}] /\ drawn = [k \in {1, 2} |-> <<state[k], <<>>>>]
Draw(k, n) == Len(drawn[k][2]) + n <= Draws /\ drawn' = [drawn EXCEPT ![k] = <<@[1], @[2] \o Take(state[k], n)>>] /\ state' = [state EXCEPT ![k] = After(@, n)]
Next == \E k \in {1, 2}, n \in 1 .. 3 : Draw(k, n)
Spec == Init /\ [][Next]_vars
(* what was drawn depends on the seed and the position only *)
Series == \A k \in {1, 2} : \A i \in DOMAIN drawn[k][2] : drawn[k][2][i] = After(drawn[k][1], i - 1)
(* bounded draws: each value is the result of the same number of accepted words *)
Threshold(r) == LET t == (Word - r) % Word IN IF t >= r THEN (IF t - r >= r THEN (t - r) % r ELSE t - r) ELSE t
Results(r, v) == {x \in 0 .. Word - 1 : (x * r) % Word >= Threshold(r) /\ (x * r) \div Word = v}
Uniform == \A r \in 1 .. Word - 1 : Threshold(r) = Word % r /\ \A v \in 0 .. r - 1 : Cardinality(Results(r, v)) = Word \div r
(* discrete distributions *)
RECURSIVE Cumulate(_, _)
Cumulate(w, k) == IF k = 0 THEN 0 ELSE w[k] + Cumulate(w, k - 1)
Index(d, v) == CHOOSE i \in DOMAIN d : v < d[i] /\ \A j \in 1 .. i - 1 : v >= d[j]
Distribution == \A n \in 1 .. 4 : \A w \in [1 .. n -> 0 .. Weights] :
  LET d == [k \in 1 .. n |-> Cumulate(w, k)] IN d[n] > 0 => \A i \in 1 .. n : Cardinality({v \in 0 .. d[n] - 1 : Index(d, v) = i}) = w[i]
(* shuffling: one choice for each permutation *)
RECURSIVE Shuffle(_, _, _)
Shuffle(a, c, i) == IF i > Len(a) THEN a ELSE LET j == i + c[i] IN Shuffle([a EXCEPT ![i] = a[j], ![j] = a[i]], c, i + 1)
RECURSIVE Choices(_, _)
Choices(n, i) == IF i > n THEN {<<>>} ELSE {<<x>> \o c : x \in 0 .. n - i, c \in Choices(n, i + 1)}
Bijective == \A n \in 1 .. Shuffled : LET r == {Shuffle([k \in 1 .. n |-> k], c, 1) : c \in Choices(n, 1)} IN Cardinality(r) = Cardinality(Choices(n, 1)) /\ \A p \in r : {p[k] : k \in 1 .. n} = 1 .. n
ASSUME Uniform
ASSUME Distribution
ASSUME Bijective
==============================================================================
