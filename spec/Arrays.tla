------------------------------- MODULE Arrays -------------------------------
(* definitions of the array operations.
   a call c has arrays a and b, parameters p, and the result o. times are natural numbers, samples are integers in units of 1/is at the input and 1/os at the output.
   Holds(c): o is a result of the operation *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Each(F(_), a) == [i \in DOMAIN a |-> F(a[i])]
Pairs(F(_, _), a, b) == [i \in DOMAIN a |-> F(a[i], b[i])]
Sum(a) == FoldLeft(LAMBDA x, y : x + y, 0, a)
Prefix(a) == FoldLeft(LAMBDA r, y : Append(r, (IF r = <<>> THEN 0 ELSE r[Len(r)]) + y), <<>>, a)
AbsMax(a) == FoldLeft(LAMBDA x, y : Max2(x, Abs(y)), 0, a)
Count(a, v) == Cardinality({i \in DOMAIN a : a[i] = v})
Permuted(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
Ascending(a) == \A i \in 2 .. Len(a) : a[i - 1] <= a[i]
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
(* half up *)
Round(n, d) == (2 * n + d) \div (2 * d)
(* o is n / d rounded either way at the middle, or nearest with a deviation of one unit *)
Nearest(o, n, d) == 2 * Abs(o * d - n) <= d
Near(o, n, d) == Abs(o * d - n) <= Abs(d)
RECURSIVE IsSub(_, _, _, _)
(* o from position j is a part of a from position i, in order *)
IsSub(o, a, j, i) == IF j > Len(o) THEN TRUE ELSE IF i > Len(a) THEN FALSE ELSE IF o[j] = a[i] THEN IsSub(o, a, j + 1, i + 1) ELSE IsSub(o, a, j, i + 1)
Bit(v, k) == IF k = 31 THEN (IF v < 0 THEN 1 ELSE 0) ELSE (v \div Pow(2, k)) % 2
And(x, y, n) == IF x >= n /\ y >= n THEN y ELSE 0
Or(x, y, n) == IF x < n /\ y >= n THEN y ELSE x
Xor(x, y, n) == IF x >= n /\ y >= n THEN 0 ELSE Or(x, y, n)
Minus(t, x, y) == IF t = 0 THEN Max2(x - y, 0) ELSE x - y
Trunc(x, y) == x \div y
Scaled(c, target, whole) == Len(c.o) = Len(c.a) /\ \A i \in DOMAIN c.a : IF whole = 0 THEN c.o[i] = 0 ELSE Near(c.o[i], c.a[i] * target * (c.os \div c.is), whole)
Removed(a, k, n) == SubSeq(a, 1, k) \o SubSeq(a, k + n + 1, Len(a))
Inserted(a, k, x) == SubSeq(a, 1, k) \o x \o SubSeq(a, k + 1, Len(a))
Selected(a, T(_)) == FoldLeft(LAMBDA r, y : IF T(y) THEN Append(r, y) ELSE r, <<>>, a)
Holds(c) ==
  LET a == c.a b == c.b p == c.p o == c.o t == c.t x == p[1] op == c.op
      El(F(_)) == o = Each(F, a)
      El2(F(_, _)) == o = Pairs(F, a, b) IN
  CASE op = "min" -> o[1] \in {a[i] : i \in DOMAIN a} /\ \A i \in DOMAIN a : a[i] >= o[1]
    [] op = "max" -> o[1] \in {a[i] : i \in DOMAIN a} /\ \A i \in DOMAIN a : a[i] <= o[1]
    [] op = "absmax" -> o = <<AbsMax(a)>>
    [] op = "equal" -> o = <<IF \A i \in DOMAIN a : a[i] = x THEN 1 ELSE 0>>
    [] op = "contains" -> o = <<IF \E i \in DOMAIN a : a[i] = x THEN 1 ELSE 0>>
    [] op = "sum" -> o = <<Sum(a)>>
    [] op = "reverse" -> o = Reverse(a)
    [] op = "copy" -> o = a
    [] op = "duplicate" -> o = a
    [] op = "new" -> El(LAMBDA y : 0)
    [] op = "cusum" -> o = Prefix(a)
    [] op = "additions" -> \A i \in DOMAIN o : o[i] = x + (i - 1) * p[2]
    [] op = "multiplications" -> \A i \in DOMAIN o : o[i] = x * Pow(p[2], i - 1)
    [] op = "divisions" -> \A i \in DOMAIN o : Near(o[i], x * (c.os \div c.is), Pow(p[2], i - 1))
    [] op = "constant" -> \A i \in DOMAIN o : o[i] = x
    [] op = "range" -> o = SubSeq(a, x + 1, p[2])
    [] op = "and" -> El2(LAMBDA y, z : And(y, z, x))
    [] op = "or" -> El2(LAMBDA y, z : Or(y, z, x))
    [] op = "xor" -> El2(LAMBDA y, z : Xor(y, z, x))
    [] op = "rtm" -> El(LAMBDA y : IF y = 0 THEN x ELSE x * Round(y, x))
    [] op = "square" -> El(LAMBDA y : y * y)
    [] op = "add" -> El(LAMBDA y : y + x)
    [] op = "multiply" -> El(LAMBDA y : y * x)
    [] op = "divide" -> Len(o) = Len(a) /\ \A i \in DOMAIN a : IF t = 0 THEN o[i] = a[i] \div x ELSE Near(o[i], a[i] * c.os, x)
    [] op = "set" -> El(LAMBDA y : x)
    [] op = "subtract" -> El(LAMBDA y : Minus(t, y, x))
    [] op = "swap" -> o = [a EXCEPT ![x + 1] = a[p[2] + 1], ![p[2] + 1] = a[x + 1]]
    [] op = "shuffle" -> Permuted(a, o)
    [] op = "sort" -> Permuted(a, o) /\ Ascending(o)
    [] op = "multiply2" -> El2(LAMBDA y, z : y * z)
    [] op = "divide2" -> Len(o) = Len(a) /\ \A i \in DOMAIN a : IF t = 0 THEN o[i] = a[i] \div b[i] ELSE Near(o[i], a[i] * c.os, b[i])
    [] op = "add2" -> El2(LAMBDA y, z : y + z)
    [] op = "subtract2" -> El2(LAMBDA y, z : Minus(t, y, z))
    [] op = "select" -> El(LAMBDA k : b[k + 1])
    [] op = "select_from" -> o = Each(LAMBDA k : a[k + 1], b)
    [] op = "bits" -> \A i \in DOMAIN o : o[i] = Bit(a[((i - 1) \div 32) + 1], (i - 1) % 32)
    [] op = "gt" -> o = Selected([i \in DOMAIN a |-> i - 1], LAMBDA i : a[i + 1] > x)
    [] op = "selrnd" -> IsSub(o, a, 1, 1)
    [] op = "binary" -> \A i \in DOMAIN o : o[i] \in {0, 1}
    [] op = "scale" -> \A i \in 0 .. Len(o) - 1 : LET k == i \div x f == i % x IN o[i + 1] = a[k + 1] * (x - f) + a[k + 2] * f
    [] op = "tscalesum" -> Len(o) = Len(a) /\ LET s == Sum(a) IN \A i \in DOMAIN a : IF s = 0 THEN o[i] = 0 ELSE Nearest(o[i], a[i] * x, s)
    [] op = "tscaley" -> Len(o) = Len(a) /\ LET s == AbsMax(a) IN \A i \in DOMAIN a : IF s = 0 THEN o[i] = 0 ELSE Nearest(o[i], a[i] * x, s)
    [] op = "sscalesum" -> Scaled(c, x, Sum(a))
    [] op = "sscaley" -> Scaled(c, x, AbsMax(a))
    [] op = "gain" -> IF x = 0 \/ AbsMax(a) = 0 THEN o = Each(LAMBDA y : y * (c.os \div c.is), a) ELSE Scaled(c, x, AbsMax(a))
    [] op = "unity" -> IF AbsMax(b) = 0 \/ AbsMax(a) = 0 THEN o = Each(LAMBDA y : y * (c.os \div c.is), a) ELSE Scaled(c, AbsMax(b), AbsMax(a))
    [] op = "extract" -> o = Selected(a, LAMBDA y : x <= y /\ y <= p[2])
    [] op = "limit" -> El(LAMBDA y : IF y > x THEN x ELSE y)
    [] op = "limitabs" -> El(LAMBDA y : IF Abs(y) > Abs(x) THEN (IF y < 0 THEN -Abs(x) ELSE Abs(x)) ELSE y)
    [] op = "remove" -> o = Removed(a, x, p[2])
    [] op = "insert" -> Len(o) = Len(a) + p[2] /\ Removed(o, x, p[2]) = a
    [] op = "subdivide" -> o = Inserted(a, x + 1, [k \in 1 .. p[2] |-> a[x + 1] + k * ((a[x + 2] - a[x + 1]) \div (p[2] + 1))])
    [] op = "tblend" -> El2(LAMBDA y, z : Round(y * (p[2] - x) + z * x, p[2]))
    [] op = "tmask" -> o = [i \in DOMAIN a |-> Round(a[i] * (x - p[i + 1]) + b[i] * p[i + 1], x)]
    [] op = "sblend" -> El2(LAMBDA y, z : y * (p[2] - x) + z * x)
    [] op = "totimes" -> El(LAMBDA y : Round(y, c.is))
    [] op = "units" -> El(LAMBDA y : y + c.is)
    [] op = "differences" -> o = [i \in 1 .. Len(a) - 1 |-> a[i + 1] - a[i]]
    \* the last elements of a go over to the mirrored first elements of b, the first elements of b come from the mirrored end of a
    [] op = "seamlessr" -> LET n == Min2(Len(a), Len(b) \div 2)  s == Len(a) - n IN
         /\ Len(o) = Len(a) /\ SubSeq(o, 1, s) = SubSeq(a, 1, s) /\ \A k \in 1 .. n : Nearest(o[s + k], (n - k) * a[s + k] + k * b[n - k + 1], n)
    [] op = "seamlessl" -> LET n == Min2(Len(b), Len(a) \div 2)  m == Len(a) + 1 IN
         /\ Len(o) = Len(b) /\ SubSeq(o, n + 1, Len(b)) = SubSeq(b, n + 1, Len(b)) /\ \A k \in 1 .. n : Nearest(o[k], (k - 1) * b[k] + (n - k + 1) * a[m - k], n)
    [] op = "u64" -> o = [i \in 1 .. 8 |-> IF i <= Len(a) THEN a[i] ELSE 0]
    [] OTHER -> FALSE
(* conformance *)
Init0(H) == H.id
Observe(H, s, e) ==
  IF e.e = "end" THEN [g |-> "", s |-> s]
  ELSE IF e.e # "call" THEN [g |-> "crash", s |-> s]
  ELSE [s |-> s, g |-> IF e.op = "unknown" THEN "driver" ELSE IF e.r # 0 THEN "status" ELSE IF e.a2 # e.a \/ e.b2 # e.b THEN "input" ELSE IF e.rep # 1 \/ ~Holds(e) THEN "result" ELSE IF e.live # 0 THEN "memory" ELSE ""]
=============================================================================
