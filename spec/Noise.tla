--------------------------------- MODULE Noise ---------------------------------
(* noise events: white noise through a band filter, whose parameters are those at the start of each update period.
   the samples are a function of the position: a register that the first run defines and later divisions have to agree with,
   and, where the initialization of the filter has no influence anymore, the filtered noise itself.
   H: rate, res, n, start, bg, aligned, ch <<use, amp, target, frq, fmod, wdt, wmod, trnl, trnh, amod>>. amp and amod in 1/2.
   samples in 1/1000000, white noise in 1/10000, impulse responses in 1/50000 *)
EXTENDS Integers, Sequences, FiniteSets
Use == 1  Amp == 2  Target == 3  Frq == 4  Fmod == 5  Wdt == 6  Wmod == 7  Trnl == 8  Trnh == 9  Amod == 10
Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Or(a, b) == IF a = <<>> THEN b ELSE a
OrZ(a, b) == IF a = 0 THEN b ELSE a
Q == 1000000
Own(x) == x[Frq] # 0 \/ x[Wdt] # 0 \/ x[Fmod] # <<>> \/ x[Wmod] # <<>> \/ x[Trnl] # 0 \/ x[Trnh] # 0
Filtered(H, c) == c = 1 \/ (H.ch[c][Use] = 1 /\ Own(H.ch[c]))
Eff(H, c) ==
  LET a == H.ch[1]  x == H.ch[c] IN
  IF c = 1 THEN a
  ELSE IF x[Use] = 0 THEN [a EXCEPT ![Target] = x[Target]]
  ELSE IF Own(x) THEN [x EXCEPT ![Amod] = Or(@, a[Amod]), ![Fmod] = Or(@, a[Fmod]), ![Wmod] = Or(@, a[Wmod]), ![Wdt] = OrZ(@, a[Wdt]), ![Trnl] = OrZ(@, a[Trnl]), ![Trnh] = OrZ(@, a[Trnh])]
  ELSE [x EXCEPT ![Amod] = Or(@, a[Amod])]
\* the channel whose filtered noise is used
Source(H, c) == IF Filtered(H, c) THEN c ELSE 1
Modulated(H) == \E c \in DOMAIN H.ch : Filtered(H, c) /\ (Eff(H, c)[Fmod] # <<>> \/ Eff(H, c)[Wmod] # <<>>)
Res(H) == Min(H.res, 4 * H.rate)
\* parts of a call, which are update periods
RECURSIVE Parts(_, _, _)
Parts(a, b, res) == IF a >= b THEN <<>> ELSE <<<<a, Min(b, a + res)>>>> \o Parts(a + res, b, res)
ParamAt(H, p) == IF Modulated(H) THEN (p \div Res(H)) * Res(H) ELSE 0
Key(H, c, p) ==
  LET x == Eff(H, c)  i == ParamAt(H, p) + 1
      f == IF x[Fmod] = <<>> THEN x[Frq] ELSE x[Fmod][i]
      w == IF x[Wmod] = <<>> THEN x[Wdt] ELSE x[Wmod][i]
  IN <<f, f + w, x[Trnl], x[Trnh]>>
Ir(s, k) == LET e == CHOOSE e \in s.irs : e[1] = k IN e[2]
HasIr(s, k) == \E e \in s.irs : e[1] = k
RECURSIVE ConvSum(_, _, _, _, _)
\* j: inputs that reach p
ConvSum(H, s, c, p, j) ==
  IF j < 0 THEN 0 ELSE
  LET ir == Ir(s, Key(H, c, j)) IN
  (IF p - j < Len(ir) THEN s.white[j + 1] * ir[p - j + 1] ELSE 0) + (IF p - j > s.maxir THEN 0 ELSE ConvSum(H, s, c, p, j - 1))
Clip(v) == Max(-Q, Min(Q, v))
Known(H, s, c, p) == s.white # <<>> /\ H.aligned = 1 /\ p >= Len(Ir(s, Key(H, c, 0))) - 1
Gain(H, c, p) == LET x == Eff(H, c) IN x[Amp] * x[Amod][p + 1]    \* in quarters
Value(H, s, c, p) == LET v == ConvSum(H, s, Source(H, c), p, p) \div 500 IN Clip((v * Gain(H, c, p)) \div 4)
Tol(H, c, p) == 10 + (700 * Abs(Gain(H, c, p))) \div 4
Targets(H, o) == {c \in DOMAIN H.ch : Eff(H, c)[Target] = o}
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN f[c] + SumSet(f, S \ {c})

Init0(H) == [irs |-> {}, maxir |-> 0, white |-> <<>>, ref |-> [k \in {} |-> 0], pos |-> 0, on |-> FALSE]
R(g, s) == [g |-> g, s |-> s]
IrE(H, s, e) == R(IF e.r # 0 THEN "driver" ELSE "", [s EXCEPT !.irs = @ \cup {<<e.k, e.ir>>}, !.maxir = Max(@, Len(e.ir))])
\* the amplitudes of the first channel are required
Unusable(H) == H.ch[1][Amod] = <<>>
Run(H, s, e) == IF Unusable(H) /\ (e.r # 0 \/ H.via = 1) THEN R("", [s EXCEPT !.on = (e.r = 0)])
                ELSE R(IF Unusable(H) \/ (e.r # 0 /\ e.inj = 0) THEN "status" ELSE IF e.r = 0 /\ e.inj = 1 THEN "status"
                  ELSE IF \E c \in DOMAIN H.ch : Filtered(H, c) /\ \E p \in 0 .. H.n - 1 : ~HasIr(s, Key(H, c, p)) THEN "driver" ELSE "",
                  [s EXCEPT !.white = e.white, !.pos = 0, !.on = (e.r = 0)])
Gen(H, s, e) ==
  LET p0 == Max(0, Min(H.n, e.a - H.start))  p1 == Max(0, Min(H.n, e.b - H.start))
      outs == 1 .. Len(e.out)
      got(o, p) == e.out[o][p + H.start - e.a + 1] - Q * (H.bg + o - 1)
      inside == {<<o, p>> : o \in outs, p \in p0 .. p1 - 1}
      ref == [k \in inside |-> IF k \in DOMAIN s.ref THEN s.ref[k] ELSE got(k[1], k[2])]
      known(o, p) == \A c \in Targets(H, o - 1) : Known(H, s, Source(H, c), p)
  IN
  IF Unusable(H) THEN R(IF e.r = 0 /\ e.b > H.start THEN "status" ELSE "", s)
  ELSE IF e.r # 0 THEN R(IF e.inj = 1 THEN "" ELSE "status", [s EXCEPT !.on = FALSE])
  ELSE
  R(IF ~s.on \/ e.a # s.pos THEN "driver"
    ELSE IF \E o \in outs : Len(e.out[o]) # e.b - e.a \/ \E k \in DOMAIN e.out[o] : LET p == e.a + k - 1 - H.start IN (p < p0 \/ p >= p1) /\ e.out[o][k] # Q * (H.bg + o - 1) THEN "confined"
    ELSE IF \E o \in outs : Targets(H, o - 1) = {} /\ \E k \in DOMAIN e.out[o] : e.out[o][k] # Q * (H.bg + o - 1) THEN "confined"
    ELSE IF \E k \in inside : Abs(got(k[1], k[2])) > Q * Cardinality(Targets(H, k[1] - 1)) THEN "bounds"
    ELSE IF \E k \in inside : Abs(got(k[1], k[2]) - ref[k]) > 5 THEN "division"
    ELSE IF \E k \in inside : known(k[1], k[2]) /\
              Abs(got(k[1], k[2]) - SumSet([c \in Targets(H, k[1] - 1) |-> Value(H, s, c, k[2])], Targets(H, k[1] - 1)))
                > SumSet([c \in Targets(H, k[1] - 1) |-> Tol(H, c, k[2])], Targets(H, k[1] - 1)) THEN "filter"
    ELSE "", [s EXCEPT !.pos = e.b, !.ref = IF H.aligned = 1 THEN [k \in inside \cup DOMAIN @ |-> IF k \in DOMAIN @ THEN @[k] ELSE ref[k]] ELSE @])
\* new configurations: the first channel over the whole spectrum with a transition of 0.08, the other ones unused
Def(H, s, e) ==
  R(IF e.r = 0 /\ e.plain = 1 /\ e.n = e.limit /\ e.res = (IF H.rate < 10000 THEN H.rate ELSE H.rate \div 1000) /\ Len(e.ch) = e.limit
       /\ \A k \in 1 .. e.limit : e.ch[k] = <<10, k - 1, 0, 1000 * (H.rate \div 2), 1000 * ((8 * H.rate) \div 100), 1000 * ((8 * H.rate) \div 100)>>
    THEN "" ELSE "defaults", s)
Observe(H, s, e) ==
  CASE e.e = "def" -> Def(H, s, e) [] e.e = "ir" -> IrE(H, s, e) [] e.e = "run" -> Run(H, s, e) [] e.e = "gen" -> Gen(H, s, e)
    [] e.e = "freed" -> R(IF e.live # 0 THEN "leak" ELSE "", s)
    [] e.e = "end" -> R("", s)
    [] OTHER -> R("crash", s)
=============================================================================
