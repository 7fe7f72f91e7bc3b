-------------------------------- MODULE Stat --------------------------------
(* definitions of descriptive statistics. array elements are integers in units of 1/is, results are given in units of 1/os and rounded *)
EXTENDS Words, FiniteSets
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE SumF(_, _, _)
SumF(F(_), a, k) == IF k = 0 THEN 0 ELSE F(a[k]) + SumF(F, a, k - 1)
Sum(a) == SumF(LAMBDA v : v, a, Len(a))
Low(a) == CHOOSE v \in {a[i] : i \in DOMAIN a} : \A i \in DOMAIN a : v <= a[i]
High(a) == CHOOSE v \in {a[i] : i \in DOMAIN a} : \A i \in DOMAIN a : v >= a[i]
(* element at position k of the ascending order *)
Sorted(a, k) == CHOOSE v \in {a[i] : i \in DOMAIN a} : Cardinality({i \in DOMAIN a : a[i] < v}) < k /\ k <= Cardinality({i \in DOMAIN a : a[i] <= v})
(* large products *)
Big(v) == FromInt(Abs(v), 24)
Times(x, y) == MulW(x, y, 24)
Leq(x, y) == ~LessW(y, x)
Near(o, n, d) == LET od == Times(Big(o), Big(d)) IN LET N == Big(n) IN (* |o d - n| <= d for equal signs *)
  IF Abs(o) <= 1 /\ Abs(n) <= 2 * Abs(d) THEN TRUE ELSE (o < 0) = ((n < 0) # (d < 0)) /\ Leq(od, AddW(N, Big(d), 24)) /\ Leq(N, AddW(od, Big(d), 24))
NearBig(o, n, d) == Leq(Times(Big(o), d), AddW(n, d, 24)) /\ Leq(n, AddW(Times(Big(o), d), d, 24))
(* central moments times powers of the size, elements c = n x - sum *)
Centered(a) == LET s == Sum(a) IN [i \in DOMAIN a |-> Len(a) * a[i] - s]
RECURSIVE BigSum(_, _, _)
BigSum(F(_), a, k) == IF k = 0 THEN Big(0) ELSE AddW(F(a[k]), BigSum(F, a, k - 1), 24)
M2(a) == BigSum(LAMBDA v : Times(Big(v), Big(v)), Centered(a), Len(a))
M4(a) == BigSum(LAMBDA v : Times(Times(Big(v), Big(v)), Times(Big(v), Big(v))), Centered(a), Len(a))
Cube(v) == Times(Big(v), Times(Big(v), Big(v)))
M3Pos(a) == BigSum(LAMBDA v : IF v > 0 THEN Cube(v) ELSE Big(0), Centered(a), Len(a))
M3Neg(a) == BigSum(LAMBDA v : IF v < 0 THEN Cube(v) ELSE Big(0), Centered(a), Len(a))
Square(x) == Times(x, x)
Less1(o) == IF o = 0 THEN 0 ELSE Abs(o) - 1
(* deviation = sqrt(M2 / n) / (n is), as M2 = sum of (n x - sum)^2: o^2 n^3 is^2 is near os^2 M2 *)
Deviation(c) == LET n == Len(c.a) m == Times(M2(c.a), Square(Big(c.os))) d == Times(Times(Big(n), Square(Big(n))), Square(Big(c.is))) IN
  Leq(Times(Square(Big(Less1(c.o[1]))), d), m) /\ Leq(m, Times(Square(Big(Abs(c.o[1]) + 1)), d)) /\ c.o[1] >= 0
(* skewness = M3 sqrt(n) / M2^(3/2) *)
Skewness(c) == LET n == Len(c.a) p == M3Pos(c.a) g == M3Neg(c.a) neg == LessW(p, g) m3 == IF neg THEN SubW(g, p, 24) ELSE SubW(p, g, 24) m2 == M2(c.a) cube == Times(m2, Square(m2))
                   s == Times(Times(Square(m3), Big(n)), Square(Big(c.os))) IN
  /\ (Abs(c.o[1]) > 1 => (c.o[1] < 0) = neg)
  /\ Leq(Times(Square(Big(Less1(c.o[1]))), cube), s) /\ Leq(s, Times(Square(Big(Abs(c.o[1]) + 1)), cube))
(* kurtosis = M4 n / M2^2 *)
Kurtosis(c) == c.o[1] >= 0 /\ NearBig(c.o[1], Times(Times(M4(c.a), Big(Len(c.a))), Big(c.os)), Square(M2(c.a)))
Triangle(n) == IF n % 2 = 0 THEN (n \div 2) * (n + 1) ELSE n * ((n + 1) \div 2)
Weighted(a) == SumF(LAMBDA i : (i - 1) * a[i], [i \in DOMAIN a |-> i], Len(a))
Distance(x, y) == LET m == x % y IN IF 2 * m <= y THEN m ELSE y - m
Inharmonic(a, i) == SumF(LAMBDA v : Distance(v, a[i]), a, Len(a))
Holds(c) ==
  LET a == c.a o == c.o n == Len(c.a) f == c.fn k == c.os \div c.is IN
  CASE f = "range" -> o = <<Low(a) * k, High(a) * k, (High(a) - Low(a)) * k>>
    [] f = "mean" -> Near(o[1], Sum(a) * c.os, n * c.is)
    [] f = "deviation" -> Deviation(c)
    [] f = "median" -> 2 * o[1] = k * (IF n % 2 = 1 THEN 2 * Sorted(a, (n + 1) \div 2) ELSE Sorted(a, n \div 2) + Sorted(a, n \div 2 + 1))
    [] f = "center" -> IF c.R = 1 THEN Near(o[1], Weighted(a) * c.os, Sum(a)) (* of R repetitions: R weighted + n sum R (R - 1) / 2 over R sum *)
                       ELSE NearBig(o[1], Times(AddW(Big(2 * Weighted(a)), Times(Big(n * Sum(a)), Big(c.R - 1)), 24), Big(c.os)), Big(2 * Sum(a)))
    [] f = "skewness" -> Skewness(c)
    [] f = "kurtosis" -> Kurtosis(c)
    [] f = "inharmonicity" -> /\ \A i \in DOMAIN a : o[1] * a[i] * n <= c.os * Inharmonic(a, i) + a[i] * n
                              /\ \E i \in DOMAIN a : o[1] * a[i] * n >= c.os * Inharmonic(a, i) - a[i] * n
    [] f = "totimes" -> LET add == IF Low(a) < 0 THEN -Low(a) ELSE 0 m == High(a) + add IN Len(o) = n /\ \A i \in DOMAIN a : IF m = 0 THEN o[i] = 0 ELSE 2 * Abs(o[i] * m - (a[i] + add) * c.p) <= m
    [] f = "unique" -> o = <<(a[1] - c.p + 1) * c.os>>
    [] f = "uniqueall" -> o = <<Triangle(a[1]) * c.os>>
    [] f = "repetition" -> o = <<(a[1] - c.p) * c.os>>
    [] f = "repetitionall" -> o = <<(Triangle(a[1]) - a[1]) * c.os>>
    [] OTHER -> FALSE
(* values are in units of m (times 1/is), and the array is given R times. none of the results except the center depends on it: the extremes, the mean, central moments and the order of repeated arrays are those of the array *)
(* conformance. the center of times with the first value counted twice is a known finding *)
Twice(c) == c.fn = "center" /\ c.t = 0 /\ LET w == Weighted(c.a) s == Sum(c.a) n == Len(c.a) IN
  IF c.R = 1 THEN Near(c.o[1], w * c.os, s + c.a[1])
  ELSE NearBig(c.o[1], Times(AddW(Times(Big(2 * w), Big(c.R)), Times(Big(n * s), Times(Big(c.R), Big(c.R - 1))), 24), Big(c.os)), Big(2 * (c.R * s + c.a[1])))
Init0(H) == 0
Judge(e) ==
  IF e.e = "end" THEN "" ELSE IF e.e # "stat" THEN "crash"
  ELSE IF e.live # 0 THEN "memory" ELSE IF e.a2 # e.a THEN "input"
  ELSE IF e.inj = 1 THEN (IF e.r = 0 THEN "unreported" ELSE "") ELSE IF e.r # 0 THEN "status"
  ELSE IF e.rep # 1 THEN e.fn
  ELSE IF Holds(e) THEN "" ELSE IF Twice(e) THEN "known" ELSE e.fn
Observe(H, s, e) == [g |-> Judge(e), s |-> s]
=============================================================================
