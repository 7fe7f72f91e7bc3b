------------------------------- MODULE Random -------------------------------
(* random states: seeding by splitmix64, xoshiro256** for integers, xoshiro256+ for numbers in an interval.
   everything that is drawn follows from the state; a state is four words *)
EXTENDS Words
Z == [i \in 1 .. 8 |-> 0]
(* constants *)
Golden == <<21, 124, 74, 127, 185, 121, 55, 158>>
Mix1 == <<185, 229, 228, 28, 109, 71, 88, 191>>
Mix2 == <<235, 17, 49, 19, 187, 73, 208, 148>>
Mixed(seed) == LET a == MulW(XorW(seed, Shr(seed, 30)), Mix1, 8) b == MulW(XorW(a, Shr(a, 27)), Mix2, 8) IN XorW(b, Shr(b, 31))
Seeded(seed) == LET s1 == AddW(seed, Golden, 8) s2 == AddW(s1, Golden, 8) s3 == AddW(s2, Golden, 8) s4 == AddW(s3, Golden, 8) IN <<Mixed(s1), Mixed(s2), Mixed(s3), Mixed(s4)>>
Step(s) == LET t == Shl(s[2], 17) c == XorW(s[3], s[1]) d == XorW(s[4], s[2]) IN <<XorW(s[1], d), XorW(s[2], c), XorW(c, t), Rotl(d, 45)>>
Star(s) == MulW(Rotl(MulW(s[2], <<5>>, 8), 7), <<9>>, 8)
Plus(s) == AddW(s[1], s[4], 8)
(* the library drops the first two values *)
Warm(seed) == Step(Step(Seeded(seed)))
(* draws return <<value, next state>> *)
U64(s) == <<Star(s), Step(s)>>
U32(s) == <<SubSeq(Star(s), 5, 8) \o <<0, 0, 0, 0>>, Step(s)>>
F64(s) == <<Shr(Star(s), 11), Step(s)>>
Unit(s) == <<Shr(Plus(s), 11), Step(s)>>
(* the first 32 bits of a number in an interval *)
Upper(s) == <<Shr(Plus(s), 32), Step(s)>>
(* uniform below range: the upper word of the product, rejecting what would be drawn more often *)
RECURSIVE Bounded(_, _)
Bounded(s, range) ==
  LET m == MulW(Star(s), range, 16) low == SubSeq(m, 1, 8) IN
  IF LessW(low, range) /\ LessW(low, ModW(SubW(Z, range, 8), range, 63, Zero9)) THEN Bounded(Step(s), range) ELSE <<SubSeq(m, 9, 16), Step(s)>>
Index(d, v) == CHOOSE i \in DOMAIN d : v < d[i] /\ \A j \in 1 .. i - 1 : v >= d[j]
Discrete(s, d) == LET b == Bounded(s, FromInt(d[Len(d)], 8)) IN <<FromInt(Index(d, ToInt(b[1])) - 1, 8), b[2]>>
RECURSIVE Unique(_, _, _, _), Shuffle(_, _, _)
(* n draws *)
Many(F(_), s, n) == FoldLeft(LAMBDA a, k : LET x == F(a[2]) IN <<Append(a[1], x[1]), x[2]>>, <<<<>>, s>>, [k \in 1 .. n |-> k])
Fresh(d, n, a) == IF Len(a[1]) = n THEN a ELSE LET x == Discrete(a[2], d) IN <<IF \E i \in DOMAIN a[1] : a[1][i] = x[1] THEN a[1] ELSE Append(a[1], x[1]), x[2]>>
Unique(s, d, n, have) == LET a == FoldLeft(LAMBDA b, k : Fresh(d, n, b), <<have, s>>, [k \in 1 .. 32 |-> k]) IN IF Len(a[1]) = n THEN a ELSE Unique(a[2], d, n, a[1])
Shuffle(s, a, i) == IF i > Len(a) THEN <<a, s>> ELSE LET b == Bounded(s, FromInt(Len(a) - i + 1, 8)) j == i + ToInt(b[1]) IN Shuffle(b[2], [a EXCEPT ![i] = a[j], ![j] = a[i]], i + 1)
Binary(s, n) == LET w == Many(U32, s, IF n < 32 THEN 1 ELSE (n \div 32) + 1) IN <<[i \in 1 .. n |-> BitW(w[1][((i - 1) \div 32) + 1], (i - 1) % 32)], w[2]>>
Ints(x) == [i \in DOMAIN x |-> FromInt(x[i], 8)]
RECURSIVE SumTo(_, _), Sel(_, _)
SumTo(a, k) == IF k = 0 THEN 0 ELSE ToInt(a[k]) + SumTo(a, k - 1)
Sel(b, i) == IF i > Len(b) THEN <<>> ELSE (IF b[i] = 1 THEN <<FromInt(i - 1, 8)>> ELSE <<>>) \o Sel(b, i + 1)
\* moved away from the nearest multiple of b, by at most half of b, less for values farther from it. amount is in 1/8, b a power of two
Away(s, x, b, amount) ==
  LET near == ((x + (b \div 2)) \div b) * b
      dist == IF x > near THEN x - near ELSE near - x
      rnd == Bounded(s, FromInt(b \div 2, 8))
      num == amount * (b - dist) * (1 + ToInt(rnd[1]))  den == 8 * b
      up == x + (num \div den)  down == x - ((num + den - 1) \div den)
      coin == U32(rnd[2]) IN
  IF x > near \/ x * den < num THEN <<FromInt(up, 8), rnd[2]>>
  ELSE IF x < near THEN <<FromInt(down, 8), rnd[2]>>
  ELSE <<FromInt(IF BitW(coin[1], 0) = 1 THEN down ELSE up, 8), coin[2]>>
Draws(s, c) ==
  LET n == c.n f == c.fn IN
  CASE f \in {1, 2} -> Many(U64, s, n)
    [] f \in {3, 4, 7, 8, 22, 23} -> Many(LAMBDA x : Bounded(x, c.range), s, n)
    [] f \in {5, 6, 20, 21} -> Many(U32, s, n)
    [] f \in {9, 10} -> Many(F64, s, n)
    [] f \in {11, 12, 13, 14, 24, 25, 26, 27, 28} -> Many(Unit, s, n)
    [] f \in {15, 16, 29} -> Many(Upper, s, n)
    [] f \in {30, 31} -> Many(LAMBDA x : Discrete(x, c.d), s, n)
    [] f = 32 -> Unique(s, c.d, IF n < Len(c.d) THEN n ELSE Len(c.d), <<>>)
    [] f = 33 -> LET b == Binary(s, n) IN <<Ints(b[1]), b[2]>>
    [] f \in {34, 38} -> Shuffle(s, [i \in 1 .. n |-> FromInt(i - 1, 8)], 1)
    [] f = 35 -> LET m == Many(LAMBDA x : Discrete(x, c.d), s, n) IN <<[i \in DOMAIN m[1] |-> FromInt(c.arg * ToInt(m[1][i]), 8)], m[2]>>
    [] f = 36 -> Many(LAMBDA x : LET m == Many(LAMBDA y : Bounded(y, c.range), x, 32) IN <<FromInt(c.arg + (SumTo(m[1], 32) \div 32), 8), m[2]>>, s, n)
    [] f = 37 -> LET b == Binary(s, n) IN <<Sel(b[1], 1), b[2]>>
    [] f = 39 -> LET m == Many(LAMBDA x : Discrete(x, c.d), s, n)  w == Len(c.d) - 1 IN <<[i \in DOMAIN m[1] |-> (LET k == ToInt(m[1][i]) IN FromInt((c.arg \div w) * k + (2 * (c.arg % w) * k + w) \div (2 * w), 8))], m[2]>>
    [] f = 40 -> FoldLeft(LAMBDA a, k : LET x == Away(a[2], c.arg + k - 1, ToInt(c.range), c.d[1]) IN <<Append(a[1], x[1]), x[2]>>, <<<<>>, s>>, [k \in 1 .. n |-> k])
(* rounding of the quotient can change the last bits *)
Close(x, y) == LET d == AddW(SubW(x, y, 8), <<2>>, 8) IN LessW(d, <<5>>)
Same(f, o, x) == IF f \in {15, 16, 29} THEN Len(o) = Len(x) /\ \A i \in DOMAIN o : Close(o[i], x[i]) ELSE o = x
(* conformance. the library's state starts with its default seed *)
Init0(H) == [i \in 0 .. 2 |-> <<Z, Z, Z, Z>>]
Observe(H, s, e) ==
  IF e.e = "end" THEN [g |-> "", s |-> s] ELSE IF e.e = "init" THEN [g |-> "", s |-> [s EXCEPT ![0] = Warm(e.seed)]] ELSE IF e.e = "many" THEN [g |-> IF e.same = 1 THEN "" ELSE "array", s |-> s] (* long arrays have the values of single draws *)
  ELSE IF e.e # "draw" THEN [g |-> "crash", s |-> s]
  ELSE IF e.fn = 0 THEN [g |-> "", s |-> [s EXCEPT ![e.s] = IF e.s = 0 THEN Warm(e.range) ELSE Seeded(e.range)]]
  ELSE LET x == Draws(s[e.s], e) IN [g |-> IF Same(e.fn, e.o, x[1]) THEN "" ELSE "values", s |-> [s EXCEPT ![e.s] = x[2]]]
=============================================================================
