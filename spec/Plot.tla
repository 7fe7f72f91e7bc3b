---------------------------------- MODULE Plot ----------------------------------
(* data files for plots and the commands that display them. texts are sequences of byte values.
   samples are in thousandths, times are pairs of the digits before and after the last four *)
EXTENDS Spectrum
Zero == 48  Newline == 10  Point == 46  Minus == 45  Quote == 34
RECURSIVE Digits(_), Lines(_, _)
Digits(n) == IF n < 10 THEN <<Zero + n>> ELSE Append(Digits(n \div 10), Zero + (n % 10))
Padded(n, w) == [k \in 1 .. w - Len(Digits(n)) |-> Zero] \o Digits(n)
SampleText(v) == (IF v < 0 THEN <<Minus>> ELSE <<>>) \o Digits(Abs(v) \div 1000) \o <<Point>> \o Padded(Abs(v) % 1000, 3)
TimeText(t) == IF t[1] = 0 THEN Digits(t[2]) ELSE Digits(t[1]) \o Padded(t[2], 4)
\* lines of a text as <<from, to>>. everything ends with a newline
Lines(text, from) == IF from > Len(text) THEN <<>>
  ELSE LET e == CHOOSE k \in from .. Len(text) : text[k] = Newline /\ \A j \in from .. k - 1 : text[j] # Newline IN <<SubSeq(text, from, e - 1)>> \o Lines(text, e + 1)
Complete(text) == text = <<>> \/ text[Len(text)] = Newline
Rows(text) == Lines(text, 1)
\* value of a number with three decimals, -1 if it is not one
IsNumber(a) == Len(a) >= 5 /\ a[Len(a) - 3] = Point /\ \A k \in DOMAIN a : k = Len(a) - 3 \/ a[k] \in Zero .. Zero + 9
RECURSIVE Number(_)
Number(a) == IF a = <<>> THEN 0 ELSE Number(SubSeq(a, 1, Len(a) - 1)) * 10 + a[Len(a)] - Zero
Thousandths(a) == IF IsNumber(a) THEN Number(SelectSeq(a, LAMBDA x : x # Point)) ELSE -1
SamplesFile(text, v) == Complete(text) /\ Rows(text) = [k \in DOMAIN v |-> SampleText(v[k])]
TimesFile(text, v) == Complete(text) /\ Rows(text) = [k \in DOMAIN v |-> TimeText(v[k])]
\* magnitudes of the transform divided by half of the size
MagnitudeOk(o, re, im, tol, n) == o < 100000 /\ LET m == Div(o * n, 2)  t == tol + n \div 2 + 1  p == re * re + im * im IN m < 40000 /\ (m + t) * (m + t) >= p /\ (m <= t \/ (m - t) * (m - t) <= p)
SpectrumFile(text, v) ==
  LET n == Len(v)  zero == [k \in DOMAIN v |-> 0]  sp == Indices(v, zero)  rows == Rows(text) IN
  /\ Complete(text) /\ Len(rows) = n
  /\ \A k \in 1 .. n : LET o == Thousandths(rows[k]) IN o >= 0 /\ MagnitudeOk(o, Real(v, zero, sp, n, 1, k - 1), Imag(v, zero, sp, n, 1, k - 1), Tolerance(v, zero, sp), n)
\* the command names the path as the data and is complete
Includes(a, b) == \E k \in 0 .. Len(a) - Len(b) : SubSeq(a, k + 1, k + Len(b)) = b
Quoted(path) == <<Quote>> \o path \o <<Quote>>
WithSteps == <<115, 116, 101, 112, 115>>  WithLines == <<108, 105, 110, 101, 115>>
CommandOk(cmd, path, steps) == Len(cmd) > 10 /\ SubSeq(cmd, 1, 8) = <<103, 110, 117, 112, 108, 111, 116, 32>> /\ cmd[Len(cmd)] = 39 /\ Includes(cmd, Quoted(path)) /\ Includes(cmd, IF steps THEN WithSteps ELSE WithLines)
FileOk(kind, text, v) == CASE kind = 1 -> SamplesFile(text, v) [] kind = 2 -> TimesFile(text, v) [] kind = 3 -> SpectrumFile(text, v)
\* numbers in one line with spaces between them
RECURSIVE Spaced(_)
Spaced(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<32>> \o Spaced(Tail(q))
LineOk(kind, text, v) == text = Append(Spaced([k \in DOMAIN v |-> IF kind = 1 THEN SampleText(v[k]) \o <<Zero, Zero>> ELSE TimeText(v[k])]), Newline)
\* the value at index i of long data is (i * f + s) modulo m. the transform of one value of m * n / 2 has magnitude m everywhere
LongValue(e, i) == ((i * e.f) + e.s) % e.m
LongRow(e, i, text) == text = (CASE e.kind = 1 -> SampleText(LongValue(e, i)) [] e.kind = 2 -> TimeText(<<LongValue(e, i) \div 10000, LongValue(e, i) % 10000>>) [] e.kind = 3 -> SampleText(e.m * 1000))
\* conformance. the state contains the paths that have been displayed
Plot0 == [paths |-> {}]
R(ok, name, s) == [g |-> IF ok THEN "" ELSE name, s |-> s]
PlotObserve(H, s, e) ==
  CASE e.e = "data" -> R(IF e.inj = 1 THEN e.live = 0 /\ e.open = 0 ELSE e.live = 0 /\ e.open = 0 /\ e.same = 1 /\ e.found = 1 /\ FileOk(e.kind, e.text, e.v), IF e.inj = 1 THEN "failure" ELSE "data", s)
    [] e.e = "display" -> R(IF e.inj = 1 THEN e.live = 0 ELSE e.live = 0 /\ Len(e.cmds) = 1 /\ CommandOk(e.cmds[1], e.path, e.kind = 2 \/ e.steps = 1), IF e.inj = 1 THEN "failure" ELSE "command", s)
    \* data and command together. commands may be read later and each file must still have its data then
    [] e.e = "plot" ->
         IF e.inj = 1 THEN R(e.live = 0 /\ e.open = 0, "failure", s)
         ELSE R(/\ e.live = 0 /\ e.open = 0 /\ e.same = 1 /\ Len(e.cmds) = 1 /\ e.path \notin s.paths
                /\ CommandOk(e.cmds[1], e.path, e.kind # 1) /\ FileOk(e.kind, e.text, e.v), "plot", [s EXCEPT !.paths = @ \cup {e.path}])
    \* many plots: each has its own file, is displayed from it, and the data is still there after all others
    [] e.e = "many" -> R(e.opened = e.n /\ e.named = e.n /\ e.own = e.n /\ e.live = 0 /\ e.open = 0, "overwritten", s)
    [] e.e = "longdata" -> R(e.live = 0 /\ e.open = 0 /\ e.lines = e.n /\ \A k \in DOMAIN e.rows : LongRow(e, e.rows[k][1], Tail(e.rows[k])), "data", s)
    [] e.e = "line" -> R(LineOk(e.kind, e.text, e.v), "line", s)
    [] e.e = "late" -> R(FileOk(e.kind, e.text, e.v), "overwritten", s)
    [] e.e = "end" -> R(e.leak = 0, "leak", s)
    [] OTHER -> R(FALSE, "crash", s)
=================================================================================
