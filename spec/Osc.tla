---------------------------------- MODULE Osc ----------------------------------
(* functions of time and conversions between units: phases, triangle and square waves, sine periods, panning, frequencies.
   times are 32 bit and come as a pair of the upper and lower 16 bits *)
EXTENDS Trig, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Limit(v, lo, hi) == Max(lo, Min(hi, v))
\* a time modulo m, for m up to 2^14
Mod(t, m) == ((t[1] % m) * (65536 % m) + t[2]) % m
\* position in the triangle with a rising and b falling positions. as a fraction of numerator and denominator
TriNum(r, a, b) == IF r < a THEN r ELSE b - (r - a)
TriDen(r, a, b) == IF r < a THEN a ELSE b
Square(r, size) == IF 2 * r < size THEN -1 ELSE 1
\* pan values and amplitudes in 1/64. even channels are the first of a pair
Pan(v, c) == IF c % 2 = 1 THEN Limit(2 * (v - 64 * (c - 1)), 0, 64) ELSE 64 - Limit(2 * (v - 64 * c) - 64, 0, 64)
Ceil(v, d) == (v + d - 1) \div d
Floor(v, d) == v \div d
Pi == 314159   \* 100000
\* conformance
Init0(H) == [x \in {} |-> 0]
Close(a, b, tol) == Abs(a - b) <= tol
SineOk(e) == /\ Len(e.o) = e.size + 2 /\ e.o[e.size + 1] = 7777777 /\ e.o[e.size + 2] = 7777777
             /\ \A k \in 1 .. e.size : Close(e.o[k], Sin(k - 1, e.size), 3)
\* arguments in 1/16, results in 1/100000. sinc(x) * pi * x = sin(pi * x)
SincOk(e) == IF e.x = 0 THEN e.v = Unit ELSE Close(Div(Div(e.v * e.x, 16) * 1000, 1000), Div(Div(Sin(e.x, 32) * 10000, 31416) * 10, 10), 4 + (Abs(e.x) \div 16))
WindowOk(e) == /\ \A k \in DOMAIN e.o : Close(e.o[k], 42000 - Div(Cos(k - 1, e.width - 1), 2) + Div(8 * Cos(2 * (k - 1), e.width - 1), 100), 4)
               /\ \A k \in DOMAIN e.o : Close(e.o[k], e.o[e.width + 1 - k], 1)
\* sines from tables: the phase moves by the frequency of each sample and continues with the next call
Period(e) == e.rate * (IF e.lfo = 1 THEN e.factor ELSE 1)
RECURSIVE PhaseAt(_, _)
PhaseAt(e, k) == IF k = 0 THEN (IF e.phs = 0 THEN 0 ELSE e.phs - 1) ELSE (PhaseAt(e, k - 1) + (IF e.fm = <<>> THEN e.frq ELSE e.fm[k])) % Period(e)
SinesOk(e) ==
  /\ e.after = (IF e.phs = 0 THEN 0 ELSE PhaseAt(e, Len(e.o)))
  /\ \A k \in DOMAIN e.o : Close(e.o[k], e.bg * Unit + Div(e.amp * (IF e.am = <<>> THEN 2 ELSE e.am[k]) * Sin(PhaseAt(e, k - 1), Period(e)), 4), 12)
Names == <<{"invalid-file-write"}, {"invalid-file-read"}, {"not-implemented"}, {"end-of-file"}, {"unknown", "end-of-file"}, {"input-type"}, {"memory"}, {"invalid-argument"}, {"not-implemented"}>>
Judge(e) ==
  CASE e.e = "tri" -> LET r == Mod(e.t, e.a + e.b) IN IF Close(e.v * TriDen(r, e.a, e.b), 1000000 * TriNum(r, e.a, e.b), TriDen(r, e.a, e.b)) THEN "" ELSE "triangle"
    [] e.e = "square" -> IF e.v = Square(Mod(e.t, e.size), e.size) THEN "" ELSE "square"
    [] e.e = "phase" -> IF e.v = (e.cur + e.change) % e.cycle THEN "" ELSE "phase"
    [] e.e = "phasef" -> IF e.v = (e.cur + Ceil(e.change, 64)) % e.cycle THEN "" ELSE "phase"
    [] e.e = "pan" -> IF e.v = Pan(e.x, e.c) THEN "" ELSE "pan"
    [] e.e = "sine" -> IF SineOk(e) THEN "" ELSE "sine"
    [] e.e = "sines" -> IF e.factor > 0 /\ SinesOk(e) THEN "" ELSE "sine"
    [] e.e = "tables" -> IF e.same = 1 THEN "" ELSE "sine"
    [] e.e = "sinc" -> IF SincOk(e) THEN "" ELSE "sinc"
    [] e.e = "window" -> IF WindowOk(e) THEN "" ELSE "window"
    [] e.e = "convert" ->
         IF /\ e.wave = e.rate \div e.x /\ e.hz = e.rate \div e.x              \* period length and back
            /\ Close(e.factor * e.rate, 1000000 * e.x, e.rate)                    \* fraction of the rate
            /\ e.fhz \in {e.x, e.x - 1}                                           \* and back, rounded down
            /\ Close(e.rad, Div(2 * Pi * e.y, 16 * 100), 2 + Abs(e.y)) /\ Close(e.rhz, e.y * 625, 1) \* radians, in 1/1000, and back, in 1/10000
            /\ e.unit = e.y + 16                                                  \* -1..1 to 0..1, in 1/32
            /\ e.dur = (e.rate \div e.d) * e.n
         THEN "" ELSE "convert"
    [] e.e = "round" -> IF e.up = Ceil(e.x, 64) /\ e.down = Floor(e.x, 64) /\ e.near = Floor(e.x + 32, 64) THEN "" ELSE "round"
    [] e.e = "pair" -> LET x == e.x  y == e.y IN
         IF /\ e.max = Max(x, y) /\ e.min = Min(x, y) /\ e.smax = Max(x, y) /\ e.smin = Min(x, y) /\ e.imax = Max(x, y) /\ e.imin = Min(x, y)
            /\ e.diff = Abs(x - y) /\ e.sub = Max(x - y, 0) /\ e.quot = (IF y = 0 THEN 0 ELSE x \div y) /\ e.opt = (IF x = 0 THEN y ELSE x)
            /\ e.lim = Limit(x - 20, -y, y) /\ e.abs = Abs(x - y) /\ e.odd = x % 2 /\ e.inter = 8 * x + e.f * (y - x)
         THEN "" ELSE "pair"
    \* moved k/8 of the way to the nearest multiple of b
    [] e.e = "harm" ->
         LET r == e.x % e.b
             To(m) == LET n == 8 * e.x + e.k * (m - e.x) IN 8 * e.v > n - 8 /\ 8 * e.v < n + 8 /\ (n % 8 = 0 => 8 * e.v = n) IN
         IF (2 * r <= e.b /\ To(e.x - r)) \/ (2 * r >= e.b /\ To(e.x - r + e.b)) THEN "" ELSE "harmonize"
    \* known failures in the order of the driver. the end of data has two ids, and neither needs an own description
    [] e.e = "statuses" ->
         IF /\ Len(e.ids) = 9 /\ \A i, k \in 1 .. 9 : i # k => e.ids[i] # e.ids[k]
            /\ \A i \in 1 .. 9 : e.ids[i] # 0 /\ e.names[i] \in Names[i] /\ e.desc[i] # ""
            /\ \A i, k \in 1 .. 9 : (i # k /\ {i, k} # {4, 5}) => e.desc[i] # e.desc[k]
         THEN "" ELSE "status"
    \* ids and groups that are not known have no description
    [] e.e = "status" ->
         IF e.g = 1 THEN (IF e.id \in 2 .. 10 \/ (e.name = "unknown" /\ e.desc = "") THEN "" ELSE "status")
         ELSE IF e.g = 0 /\ e.id = e.mem THEN (IF e.desc # "" THEN "" ELSE "status")
         ELSE IF e.name = "unknown" /\ e.desc = "" THEN "" ELSE "status"
    [] e.e = "end" -> ""
    [] OTHER -> "crash"
Observe(H, s, e) == [g |-> Judge(e), s |-> s]
================================================================================
