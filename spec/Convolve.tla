------------------------------- MODULE Convolve -------------------------------
(* filters and averages on streams. a filter keeps what its earlier inputs still contribute to coming positions (tail),
   and the function and arguments its current impulse response was made with (key) *)
EXTENDS Integers, Sequences, FiniteSets
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumOf(_, _, _)
SumOf(f, a, b) == IF a > b THEN 0 ELSE f[a] + SumOf(f, a + 1, b)
\* the whole convolution. position k gets in[i] * ir[k - i + 1]
ConvAt(in, ir, k) ==
  LET lo == Max(1, k - Len(ir) + 1)  hi == Min(k, Len(in)) IN
  SumOf([j \in lo .. hi |-> in[j] * ir[k - j + 1]], lo, hi)
At(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
\* all coming positions after adding a segment: the tail so far plus the convolution of the segment
Sum(tail, in, ir) == [k \in 1 .. Max(Len(tail), IF Len(in) = 0 THEN 0 ELSE Len(in) + Len(ir) - 1) |-> At(tail, k) + ConvAt(in, ir, k)]
OutOf(sum, n) == [k \in 1 .. n |-> At(sum, k)]
TailOf(sum, n) == IF Len(sum) <= n THEN <<>> ELSE SubSeq(sum, n + 1, Len(sum))
Close(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Abs(a[k] - b[k]) <= tol

\* moving average
In(e, j) ==   \* value at j, where 1..n is the segment. j < 1 and j > n are outside
  LET n == Len(e.in) IN
  IF j < 1 THEN (IF e.hp = 1 THEN e.prev[n + j] ELSE -e.in[2 - j])
  ELSE IF j > n THEN (IF e.hn = 1 THEN e.next[j - n] ELSE -e.in[2 * n - j])
  ELSE e.in[j]
Window(e, i) == SumOf([j \in i - e.r .. i + e.r |-> In(e, j)], i - e.r, i + e.r)

Regs == 0 .. 3
NoKey == <<-1, <<>>>>
Init0(H) == [reg |-> [x \in Regs |-> [has |-> FALSE, key |-> NoKey, again |-> FALSE, tail |-> <<>>]],
             conv |-> [x \in Regs |-> <<>>], call |-> <<>>, irs |-> 0, irst |-> 0]
R(g, s) == [g |-> g, s |-> s]

\* filter call. whether the impulse response has to be made
Changed(r, e) == ~r.has \/ r.key # <<e.f, e.args>>
FB(H, s, e) == R(IF s.call = <<>> THEN "" ELSE "driver", [s EXCEPT !.call = e, !.irs = 0, !.irst = 0])
IR(H, s, e) ==
  IF s.call = <<>> THEN R("ir", s) ELSE
  LET r == s.reg[s.call.x] IN
  R(IF /\ s.irs = 0 /\ (Changed(r, s.call) \/ r.again) /\ e.f = s.call.f /\ e.args = s.call.args THEN "" ELSE "ir",
    [s EXCEPT !.irs = 1, !.irst = e.st])
FE(H, s, e) ==
  LET c == s.call  r == s.reg[c.x]  sum == Sum(r.tail, c.in, c.ir) IN
  IF e.r # 0 THEN
    \* failed: nothing changed, except that the impulse response may have to be made again
    R(IF e.inj = 1 \/ (s.irst # 0 /\ e.r = s.irst) THEN "" ELSE "status", [s EXCEPT !.call = <<>>, !.reg[c.x].again = TRUE])
  ELSE
  R(IF s.irst # 0 THEN "status"
    ELSE IF c.f < 2 /\ Changed(r, c) /\ s.irs = 0 THEN "ir"
    ELSE IF ~Close(e.out, OutOf(sum, Len(c.in)), H.tol) THEN "output" ELSE "",
    [s EXCEPT !.call = <<>>, !.reg[c.x] = [has |-> TRUE, key |-> <<c.f, c.args>>, again |-> FALSE, tail |-> TailOf(sum, Len(c.in))]])
FR(H, s, e) == R("", [s EXCEPT !.reg[e.x] = [has |-> FALSE, key |-> NoKey, again |-> FALSE, tail |-> <<>>]])
\* convolution with the carryover in the hands of the caller
CV(H, s, e) ==
  LET sum == Sum(s.conv[e.x], e.in, e.b)  n == Len(e.in)  t == TailOf(sum, n) IN
  R(IF ~Close(e.out, OutOf(sum, n), H.tol) THEN "output"
    ELSE IF Len(t) > Len(e.carry) \/ \E k \in DOMAIN e.carry : Abs(e.carry[k] - At(t, k)) > H.tol THEN "tail" ELSE "",
    [s EXCEPT !.conv[e.x] = t])
MA(H, s, e) == R(IF Len(e.out) = Len(e.in) /\ \A i \in DOMAIN e.in : e.out[i] = Window(e, i) THEN "" ELSE "average", s)
\* impulse responses are symmetric with odd length and pass or reject the ends of the spectrum
MinLen(t) == LET c == (4000 + t - 1) \div t IN IF c % 2 = 0 THEN c + 1 ELSE c
IRF(H, s, e) ==
  LET lo == e.p[1]  hi == e.p[2]
      dc == CASE e.kind = 0 -> TRUE [] e.kind = 1 -> FALSE [] e.kind = 2 -> lo <= 0
              [] OTHER -> lo > 0
      ny == CASE e.kind = 0 -> FALSE [] e.kind = 1 -> TRUE [] e.kind = 2 -> hi >= 500
              [] OTHER -> hi < 500
      len == CASE e.kind < 2 -> MinLen(e.p[3])
               [] lo <= 0 /\ hi >= 500 -> 1
               [] lo <= 0 -> MinLen(e.p[4])
               [] hi >= 500 -> MinLen(e.p[3])
               [] e.kind = 2 -> MinLen(e.p[3]) + MinLen(e.p[4]) - 1
               [] OTHER -> Max(MinLen(e.p[3]), MinLen(e.p[4]))
  IN R(IF e.r # 0 \/ e.len # len \/ e.sym > 2 THEN "response"
       ELSE IF Abs(e.dc - (IF dc THEN 1000000 ELSE 0)) > 10 \/ Abs(e.ny - (IF ny THEN 1000000 ELSE 0)) > 30000 THEN "response" ELSE "", s)
\* long streams. the input has the values u, repeated, up to position lim, and the impulse response of length L repeats t. windows of outputs <<position, values>>
LongAt(e, k) ==
  LET hi == Min(k, e.lim - 1)  lo == Max(0, k - e.L + 1) IN
  SumOf([i \in lo .. hi |-> e.u[(i % Len(e.u)) + 1] * e.t[((k - i) % Len(e.t)) + 1]], lo, hi)
LC(H, s, e) == R(IF e.r # 0 THEN "status" ELSE IF \A w \in DOMAIN e.w : \A j \in DOMAIN e.w[w][2] : e.w[w][2][j] = LongAt(e, e.w[w][1] + j - 1) THEN "" ELSE "output", s)
Observe(H, s, e) ==
  CASE e.e = "fb" -> FB(H, s, e) [] e.e = "ir" -> IR(H, s, e) [] e.e = "fe" -> FE(H, s, e) [] e.e = "fr" -> FR(H, s, e)
    [] e.e = "cv" -> CV(H, s, e) [] e.e = "ma" -> MA(H, s, e) [] e.e = "mc" -> R(IF e.bad = 0 THEN "" ELSE "average", s)
    [] e.e = "lc" -> LC(H, s, e) [] e.e = "irf" -> IRF(H, s, e)
    [] e.e = "end" -> R(IF s.call # <<>> THEN "crash" ELSE IF e.live # 0 THEN "leak" ELSE "", s)
    [] e.e = "bad" -> R("driver", s)
    [] OTHER -> R("crash", s)
=============================================================================
