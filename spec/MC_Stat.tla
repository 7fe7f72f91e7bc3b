------------------------------- MODULE MC_Stat -------------------------------
(* the definitions of Stat against characterisations that do not use them, for all small arrays *)
EXTENDS Stat
CONSTANTS N, V
VARIABLE a
Init == \E n \in 1 .. N : a \in [1 .. n -> 0 .. V]
Spec == Init /\ [][UNCHANGED a]_a
Away(x2) == SumF(LAMBDA v : Abs(2 * v - x2), a, Len(a))
Median2 == LET n == Len(a) IN IF n % 2 = 1 THEN 2 * Sorted(a, (n + 1) \div 2) ELSE Sorted(a, n \div 2) + Sorted(a, n \div 2 + 1)
(* the median minimises the sum of distances *)
MedianLaw == \A x \in 0 .. 2 * V : Away(Median2) <= Away(x)
(* the mean balances the deviations and lies between the extremes *)
MeanLaw == Sum(Centered(a)) = 0 /\ Low(a) * Len(a) <= Sum(a) /\ Sum(a) <= High(a) * Len(a)
(* sum of squared differences of pairs *)
Pairs2 == SumF(LAMBDA i : SumF(LAMBDA v : (v - a[i]) * (v - a[i]), a, Len(a)), [i \in DOMAIN a |-> i], Len(a))
DeviationLaw == Times(M2(a), Big(2)) = Big(Pairs2 * Len(a))
(* kurtosis is at least squared skewness plus one *)
MomentLaw == Low(a) # High(a) =>
  LET m2 == M2(a) p == M3Pos(a) g == M3Neg(a) m3 == IF LessW(p, g) THEN SubW(g, p, 24) ELSE SubW(p, g, 24) n == Big(Len(a)) IN
  Leq(AddW(Times(Square(m3), n), Times(m2, Square(m2)), 24), Times(Times(M4(a), n), m2))
(* numbers of windows *)
WindowLaw == LET n == Len(a) IN Triangle(n) = Cardinality({<<i, j>> \in (1 .. n) \X (1 .. n) : i <= j}) /\ \A w \in 1 .. n : Cardinality({i \in 1 .. n : i + w - 1 <= n}) = n - w + 1
CenterLaw == Sum(a) > 0 => 0 <= Weighted(a) /\ Weighted(a) <= (Len(a) - 1) * Sum(a)
==============================================================================
