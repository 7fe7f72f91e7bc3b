--------------------------------- MODULE Wave ---------------------------------
(* samples of a wave event. configuration: H.size, H.wvf, H.n (duration), H.start, H.bg,
   H.ch: channels <<use, amp, target, frq, fmod, phs, pmod, amod>>, empty sequences for what is not set.
   the state is the next position and the phase of each channel *)
EXTENDS Integers, Sequences, FiniteSets
Use == 1  Amp == 2  Target == 3  Frq == 4  Fmod == 5  Phs == 6  Pmod == 7  Amod == 8
Abs(a) == IF a < 0 THEN -a ELSE a
Or(a, b) == IF a = <<>> THEN b ELSE a
\* what a channel takes from the first one
Eff(H, c) ==
  LET a == H.ch[1]  x == H.ch[c] IN
  IF c = 1 THEN a
  ELSE IF x[Use] = 1 THEN [x EXCEPT ![Frq] = IF @ = 0 THEN a[Frq] ELSE @, ![Fmod] = Or(@, a[Fmod]), ![Pmod] = Or(@, a[Pmod]), ![Amod] = Or(@, a[Amod])]
  ELSE [a EXCEPT ![Target] = x[Target]]
Change(x, p) == x[Frq] + (IF x[Fmod] = <<>> THEN 0 ELSE x[Fmod][p + 1])
FunChange(x, p) == IF x[Fmod] = <<>> THEN x[Frq] ELSE x[Fmod][p + 1]   \* for sp_wave fmod replaces frq
\* waveforms of more than 1000 samples are a pattern with steps
Wvf(H, i) == IF H.size > 1000 THEN H.wvf[(i % Len(H.wvf)) + 1] + (i \div 10000) ELSE H.wvf[i + 1]
\* closed form: the phase at p is the sum of all earlier changes
RECURSIVE PhaseAt(_, _, _)
PhaseAt(H, x, p) == IF p = 0 THEN x[Phs] % H.size ELSE (PhaseAt(H, x, p - 1) + Change(x, p - 1)) % H.size
Value(H, x, p, phs) ==
  x[Amp] * (IF x[Amod] = <<>> THEN 1 ELSE x[Amod][p + 1]) * Wvf(H, (phs + (IF x[Pmod] = <<>> THEN 0 ELSE x[Pmod][p + 1])) % H.size)
\* phases at positions a..b from the phase at a
RECURSIVE Walk(_, _, _, _, _)
Walk(H, x, a, b, acc) == IF a >= b THEN acc ELSE Walk(H, x, a + 1, b, Append(acc, (acc[Len(acc)] + (IF H.fn = 1 THEN FunChange(x, a) ELSE Change(x, a))) % H.size))
Targets(H, o) == {c \in DOMAIN H.ch : Eff(H, c)[Target] = o}
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN f[c] + SumSet(f, S \ {c})
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Init0(H) == [pos |-> 0, phs |-> [c \in DOMAIN H.ch |-> Eff(H, c)[Phs]], table |-> <<>>, sphs |-> H.sphs]
R(g, s) == [g |-> g, s |-> s]
Gen(H, s, e) ==
  LET p0 == Max(0, Min(H.n, e.a - H.start))  p1 == Max(0, Min(H.n, e.b - H.start))
      walk == [c \in DOMAIN H.ch |-> Walk(H, Eff(H, c), p0, p1, <<s.phs[c]>>)]
      val(c, p) == Value(H, Eff(H, c), p, walk[c][p - p0 + 1])
      want(o, k) == LET p == e.a + k - 1 - H.start IN
        H.bg + (IF H.fn = 1 THEN 0 ELSE o) + (IF p < p0 \/ p >= p1 THEN 0 ELSE SumSet([c \in Targets(H, o) |-> val(c, p)], Targets(H, o)))
  IN R(IF e.a # s.pos THEN "driver" ELSE IF e.r # 0 THEN "status"
       ELSE IF H.fn = 1 THEN (IF Len(e.out[1]) = e.b - e.a /\ \A k \in DOMAIN e.out[1] : e.out[1][k] = want(0, k) THEN "" ELSE "samples")
       ELSE IF \A o \in 1 .. Len(e.out) : Len(e.out[o]) = e.b - e.a /\ \A k \in DOMAIN e.out[o] : e.out[o][k] = want(o - 1, k) THEN "" ELSE "samples",
       [s EXCEPT !.pos = e.b, !.phs = IF H.fn = 1 /\ H.keep = 0 THEN @ ELSE [c \in DOMAIN H.ch |-> walk[c][Len(walk[c])]]])
\* long events. modulation arrays repeat H.tile values. the phase has a closed form
RECURSIVE SumTo(_, _)
SumTo(a, k) == IF k = 0 THEN 0 ELSE a[k] + SumTo(a, k - 1)
MulMod(a, b, m) == LET x == a % m  y == b % m IN (((((x * (y \div 1024)) % m) * 1024) % m) + ((x * (y % 1024)) % m)) % m
LongPhase(H, x, p) ==
  LET m == H.tile IN
  (x[Phs] + MulMod(p, x[Frq], H.size) + (IF x[Fmod] = <<>> THEN 0 ELSE MulMod(p \div m, SumTo(x[Fmod], m), H.size) + (SumTo(x[Fmod], p % m) % H.size))) % H.size
LongValue(H, x, p) ==
  LET t == (p % H.tile) + 1 IN
  x[Amp] * (IF x[Amod] = <<>> THEN 1 ELSE x[Amod][t]) * Wvf(H, (LongPhase(H, x, p) + (IF x[Pmod] = <<>> THEN 0 ELSE x[Pmod][t])) % H.size)
Long(H, s, e) ==
  LET ok(w) == \A o \in DOMAIN w[2] : \A k \in 1 .. 8 : LET p == w[1] + k - 1 - H.base - H.start IN
        w[2][o][k] = H.bg + o - 1 + (IF p < 0 \/ p >= H.n THEN 0 ELSE SumSet([c \in Targets(H, o - 1) |-> LongValue(H, Eff(H, c), p)], Targets(H, o - 1)))
  IN R(IF e.r # 0 THEN "status" ELSE IF e.end # H.base + H.total THEN "driver" ELSE IF \A i \in DOMAIN e.w : ok(e.w[i]) THEN "" ELSE "samples", [s EXCEPT !.pos = H.total])
\* one period of a sine
Table(H, s, e) ==
  LET n == Len(e.t) IN
  R(IF e.r # 0 \/ n # H.tsize THEN "table"
    ELSE IF /\ e.t[1] = 0
            /\ \A k \in 1 .. n : Abs(e.t[k] + e.t[((2 * n + 1 - k) % n) + 1]) <= 2            \* odd
            /\ n % 2 = 0 => \A k \in 1 .. n \div 2 : Abs(e.t[k] + e.t[k + n \div 2]) <= 2     \* half wave symmetry
            /\ n % 4 = 0 => e.t[n \div 4 + 1] = 1000000
            /\ n % 12 = 0 => Abs(e.t[n \div 12 + 1] - 500000) <= 2
            /\ \A k \in 1 .. n \div 4 : k + 1 <= n \div 4 + 1 => e.t[k + 1] > e.t[k]
            \* concave within the first quarter
            /\ \A k \in 2 .. n \div 4 : 2 * e.t[k] + 3 >= e.t[k - 1] + e.t[k + 1]
         THEN "" ELSE "table", [s EXCEPT !.table = e.t])
Sine(H, s, e) ==
  LET n == Len(s.table)  len == e.b - e.a  ph(k) == (s.sphs + (k - 1) * H.sfrq) % n IN
  R(IF Len(e.out) = len /\ \A k \in 1 .. len : Abs(e.out[k] - H.samp * s.table[ph(k) + 1]) <= H.samp + 1 THEN "" ELSE "samples",
    [s EXCEPT !.sphs = (@ + len * H.sfrq) % n])
Def(H, s, e) ==
  R(IF e.plain = 1 /\ e.size = H.rate /\ e.table = 1 /\ e.n = e.limit /\ \A k \in 1 .. e.limit : e.amp[k] = 1 /\ e.ch[k] = k - 1 THEN "" ELSE "defaults", s)
PhsOk(e) == LET c == IF e.fl = 1 THEN (e.c + 3) \div 4 ELSE e.c IN e.v = (e.cur + c) % e.cy
Observe(H, s, e) ==
  CASE e.e = "gen" -> Gen(H, s, e) [] e.e = "long" -> Long(H, s, e) [] e.e = "table" -> Table(H, s, e) [] e.e = "sine" -> Sine(H, s, e) [] e.e = "def" -> Def(H, s, e)
    [] e.e = "phs" -> R(IF PhsOk(e) THEN "" ELSE "phase", s)
    [] e.e = "end" -> R(IF e.live # 0 THEN "leak" ELSE IF s.pos # H.total THEN "crash" ELSE "", s)
    [] OTHER -> R("crash", s)
=============================================================================
