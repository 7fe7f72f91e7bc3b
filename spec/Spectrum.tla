-------------------------------- MODULE Spectrum --------------------------------
(* discrete fourier transform and frequency responses of filters.
   cosines are in 1/100000, impulse responses in 1/100000, transform results in 1/1000 *)
EXTENDS Trig, FiniteSets, SequencesExt
Abs(a) == IF a < 0 THEN -a ELSE a
Total(f(_), S) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
Close(a, b, tol) == Abs(a - b) <= tol
\* the transform with sign 1 and the inverse, without scaling, with sign -1. k starts at zero. inputs are integers. sp contains the indices that are not zero
Real(re, im, sp, n, sign, k) == Div(Total(LAMBDA j : re[j] * Cos((j - 1) * k, n) + sign * im[j] * Sin((j - 1) * k, n), sp), 100)
Imag(re, im, sp, n, sign, k) == Div(Total(LAMBDA j : im[j] * Cos((j - 1) * k, n) - sign * re[j] * Sin((j - 1) * k, n), sp), 100)
\* errors of the table, 1.2 / 100000, for each input
Tolerance(re, im, sp) == 2 + Div(Total(LAMBDA j : Abs(re[j]) + Abs(im[j]), sp) * 25, 1000)
Indices(re, im) == {j \in DOMAIN re : re[j] # 0 \/ im[j] # 0}
TransformOk(re, im, sign, ore, oim) ==
  LET n == Len(re)  sp == Indices(re, im)  tol == Tolerance(re, im, sp) IN
  \A k \in 1 .. n : Close(ore[k], Real(re, im, sp, n, sign, k - 1), tol) /\ Close(oim[k], Imag(re, im, sp, n, sign, k - 1), tol)
\* large transforms of few values with some of the results. x[1]: index, x[2]: real, x[3]: imaginary
ProductModulo(a, b, n) == ((((a \div 256) * b) % n) * 256 + (a % 256) * b) % n
Part(a0, n, k, f(_, _, _)) == Div(FoldLeft(LAMBDA a, x : LET p == ProductModulo(x[1], k, n) IN a + f(x, Cos(p, n), Sin(p, n)), 0, a0), 100)
LargeOk(e) == LET sign == IF e.dir = 1 THEN 1 ELSE -1  tol == 2 + Div(FoldLeft(LAMBDA a, x : a + Abs(x[2]) + Abs(x[3]), 0, e["in"]) * 25, 1000) IN
  \A i \in DOMAIN e.out : LET o == e.out[i] IN
    /\ Close(o[2], Part(e["in"], e.n, o[1], LAMBDA x, c, s : x[2] * c + sign * x[3] * s), tol)
    /\ Close(o[3], Part(e["in"], e.n, o[1], LAMBDA x, c, s : x[3] * c - sign * x[2] * s), tol)
\* circular convolution by definition. products of transforms are transforms of it
CircularOk(e) == LET n == Len(e.re) IN \A k \in 1 .. n :
  LET at(j) == ((k - j + n) % n) + 1 IN
    /\ Close(e.ore[k], 1000 * Total(LAMBDA j : e.re[j] * e.re2[at(j)] - e.im[j] * e.im2[at(j)], 1 .. n), 1)
    /\ Close(e.oim[k], 1000 * Total(LAMBDA j : e.re[j] * e.im2[at(j)] + e.im[j] * e.re2[at(j)], 1 .. n), 1)
\* impulse responses that are changed so that the frequency response is flipped
Inverted(a) == [k \in DOMAIN a |-> (IF 2 * k = Len(a) + 1 THEN 1 ELSE 0) - a[k]]
Reversed(a) == [k \in DOMAIN a |-> IF k % 2 = 0 THEN -a[k] ELSE a[k]]
\* amplitude of the frequency f / d (fraction of the rate) after a symmetric impulse response
Amplitude(ir, f, d) == LET c == (Len(ir) - 1) \div 2 IN Total(LAMBDA k : Div(ir[k] * Div(Cos((k - 1 - c) * f, d), 100), 1000), DOMAIN ir)
\* ideal responses. 2: not determined because in the transition band. all in 1/d
Low(f, c, t) == IF c <= 0 THEN 0 ELSE IF 2 * c >= 1000 THEN 1 ELSE IF f <= c - t THEN 1 ELSE IF f >= c + t THEN 0 ELSE 2
High(f, c, t) == IF c <= 0 THEN 1 ELSE IF 2 * c >= 1000 THEN 0 ELSE IF f <= c - t THEN 0 ELSE IF f >= c + t THEN 1 ELSE 2
Both(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 1 /\ b = 1 THEN 1 ELSE 2
Either(a, b) == IF a = 2 \/ b = 2 THEN 2 ELSE a + b
\* p: kind (0: low-pass, 1: high-pass, 2: band-pass, 3: band-reject), cutoffs and transitions in 1/1000 of the rate
Ideal(p, f) == CASE p.kind = 0 -> Low(f, p.c, p.t) [] p.kind = 1 -> High(f, p.c, p.t)
                 [] p.kind = 2 -> Both(High(f, p.c, p.t), Low(f, p.c2, p.t2)) [] p.kind = 3 -> Either(Low(f, p.c, p.t), High(f, p.c2, p.t2))
\* 4 / transition rounded up to an odd number
Length(t) == LET a == (4000 + t - 1) \div t IN IF a % 2 = 0 THEN a + 1 ELSE a
Gain == 400 \* tolerance in 1/100000
ResponseOk(e) ==
  /\ Len(e.ir) % 2 = 1 /\ \A k \in DOMAIN e.ir : Close(e.ir[k], e.ir[Len(e.ir) + 1 - k], 1)
  /\ e.kind \in {0, 1} => Len(e.ir) = Length(e.t)
  /\ \A f \in {0, 500} \cup {(500 * j) \div e.points : j \in 1 .. e.points} : LET a == Ideal(e, f) IN a = 2 \/ Close(Amplitude(e.ir, f, 1000), a * 100000, Gain)
\* a steady sine wave after a filter: delayed by half of the impulse response and unchanged or removed
SteadyOk(e) == LET a == Ideal(e, e.f)  l == e.irlen IN
  a = 2 \/ \A k \in l .. Len(e.o) : Close(e.o[k], Div(a * Cos((2 * (k - 1) - (l - 1)) * e.f, 2000), 10), Gain \div 10 + 2)
\* conformance
Init0(H) == [x \in {} |-> 0]
Judge(e) ==
  CASE e.e = "fft" -> IF e.inj = 1 THEN (IF e.st # 0 /\ e.live = 0 THEN "" ELSE "failure")
                      ELSE IF e.st # 0 THEN "status" ELSE IF e.live # 0 THEN "memory" ELSE IF TransformOk(e.re, e.im, 1, e.ore, e.oim) THEN "" ELSE "transform"
    [] e.e = "ffti" -> IF e.inj = 1 THEN (IF e.st # 0 /\ e.live = 0 THEN "" ELSE "failure")
                      ELSE IF e.st # 0 THEN "status" ELSE IF e.live # 0 THEN "memory" ELSE IF TransformOk(e.re, e.im, -1, e.ore, e.oim) THEN "" ELSE "inverse"
    \* transformed there and back, scaled
    [] e.e = "back" -> IF e.st = 0 /\ \A k \in DOMAIN e.re : Close(e.ore[k], 1000 * e.re[k], 1) /\ Close(e.oim[k], 1000 * e.im[k], 1) THEN "" ELSE "back"
    [] e.e = "circular" -> IF e.inj = 1 THEN (IF e.ok = 0 /\ e.live = 0 /\ e.same = 1 THEN "" ELSE "failure")
                      ELSE IF e.ok # 1 THEN "status" ELSE IF e.live # 0 \/ e.same # 1 THEN "memory" ELSE IF CircularOk(e) THEN "" ELSE "convolution"
    [] e.e = "large" -> IF e.st # 0 THEN "status" ELSE IF e.live # 0 THEN "memory" ELSE IF LargeOk(e) THEN "" ELSE "transform"
    [] e.e = "flip" -> IF e.inverted = Inverted(e.a) /\ e.reversed = Reversed(e.a) THEN "" ELSE "flip"
    [] e.e = "ir" -> IF e.st # 0 THEN "status" ELSE IF e.same # 1 THEN "arguments" ELSE IF ResponseOk(e) THEN "" ELSE "response"
    [] e.e = "sine" -> IF e.st # 0 THEN "status" ELSE IF SteadyOk(e) THEN "" ELSE "steady"
    [] e.e = "end" -> ""
    [] OTHER -> "crash"
Observe(H, s, e) == [g |-> Judge(e), s |-> s]
================================================================================
