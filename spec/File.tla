---------------------------------- MODULE File ----------------------------------
(* 32 bit float wav files, byte for byte. the state has the file that is written (header fields and data bytes) or read
   (bytes, position of the next byte).
   samples are <<m, e>> for m * 2^e, and as little endian float bytes in files *)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
Min(a, b) == IF a < b THEN a ELSE b
Pow(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 ELSE IF n = 2 THEN 4 ELSE LET RECURSIVE P(_) P(k) == IF k = 0 THEN 1 ELSE 2 * P(k - 1) IN P(n)
Bits(m) == CHOOSE n \in 1 .. 30 : m < Pow(n) /\ (n = 1 \/ m >= Pow(n - 1))
\* rounding to the nearest float, ties to even. the range of the generated samples has no subnormal or infinite values
F32(m, e) ==
  IF m = 0 THEN <<0, 0, 0, 0>> ELSE
  LET a == Abs(m)  n == Bits(a)  s == n - 24
      q0 == IF s <= 0 THEN a * Pow(-s) ELSE LET q == a \div Pow(s)  r == a % Pow(s)  h == Pow(s - 1) IN IF r > h \/ (r = h /\ q % 2 = 1) THEN q + 1 ELSE q
      carry == q0 = 16777216
      q == IF carry THEN 8388608 ELSE q0
      x == e + n - 1 + 127 + (IF carry THEN 1 ELSE 0)
      t == q - 8388608
  IN <<t % 256, (t \div 256) % 256, (t \div 65536) + 128 * (x % 2), (x \div 2) + (IF m < 0 THEN 128 ELSE 0)>>
Le32(a) == <<a % 256, (a \div 256) % 256, (a \div 65536) % 256, a \div 16777216>>
Le16(a) == <<a % 256, a \div 256>>
RIFF == <<82, 73, 70, 70>>  WAVE == <<87, 65, 86, 69>>  FMT == <<102, 109, 116, 32>>  DATA == <<100, 97, 116, 97>>
Header(ch, rate, size) ==
  RIFF \o Le32(36 + size) \o WAVE \o FMT \o Le32(16) \o Le16(3) \o Le16(ch) \o Le32(rate) \o Le32(rate * ch * 4) \o Le16(ch * 4) \o Le16(32) \o DATA \o Le32(size)
\* frames of all channels
Interleaved(x, n) ==
  LET c == Len(x)  f == [k \in 1 .. n * c |-> LET v == x[((k - 1) % c) + 1][((k - 1) \div c) + 1] IN F32(v[1], v[2])] IN
  [p \in 1 .. 4 * n * c |-> f[((p - 1) \div 4) + 1][((p - 1) % 4) + 1]]
\* reading
Sub(b, i, n) == SubSeq(b, i + 1, i + n)
U16(b, i) == b[i + 1] + 256 * b[i + 2]
U32(b, i) == b[i + 1] + 256 * b[i + 2] + 65536 * b[i + 3] + (IF b[i + 4] > 127 THEN 65536 * 127 * 256 ELSE 16777216 * b[i + 4])
\* offset of the first data byte, or -1. i: offset of a chunk
\* g: the content of the chunk at g[1] has g[2] more bytes that are not in b
RECURSIVE DataAt(_, _, _)
DataAt(b, i, g) ==
  IF i + 8 > Len(b) THEN -1 ELSE IF Sub(b, i, 4) = DATA THEN i + 8
  ELSE LET n == U32(b, i + 4)  out == IF i + 8 = g[1] THEN g[2] ELSE 0 IN
    IF n > Len(b) + out \/ n < out THEN -1 ELSE DataAt(b, i + 8 + (n - out), g)
Valid(b, g) == Len(b) >= 44 /\ Sub(b, 0, 4) = RIFF /\ Sub(b, 8, 4) = WAVE /\ Sub(b, 12, 4) = FMT /\ U16(b, 20) = 3 /\ U16(b, 34) = 32 /\ U16(b, 22) > 0 /\ DataAt(b, 36, g) >= 0
Frames(b, ch, pos) == (Len(b) - pos) \div (4 * ch)

Init0(H) == [ch |-> 0, rate |-> 0, data |-> <<>>, b |-> <<>>, pos |-> 0, open |-> FALSE, part |-> 0, lost |-> FALSE]
R(g, s) == [g |-> g, s |-> s]
Create(H, s, e) ==
  R(IF e.r = 0 /\ (e.p # 0 \/ e.inj = 1) THEN "create" ELSE IF e.r # 0 /\ e.p = 0 /\ e.inj = 0 THEN "create" ELSE "",
    [s EXCEPT !.ch = e.ch, !.rate = e.rate, !.data = <<>>, !.open = (e.r = 0), !.part = e.part, !.lost = FALSE])
Write(H, s, e) ==
  R(IF ~s.open THEN "driver" ELSE IF e.r # 0 /\ e.inj = 0 THEN "status" ELSE IF e.r = 0 /\ e.inj = 1 THEN "status" ELSE IF e.live # 0 THEN "leak" ELSE "",
    IF e.r = 0 THEN [s EXCEPT !.data = @ \o Interleaved(e.x, e.n)] ELSE [s EXCEPT !.lost = @ \/ (e.inj = 1 /\ s.part = 1)])
FileOk(ch, rate, data, b) ==
  LET h == Header(ch, rate, Len(data)) IN
  IF Len(b) < 44 \/ SubSeq(b, 1, 44) # h THEN "header" ELSE IF SubSeq(b, 45, Len(b)) # data THEN "data" ELSE ""
Written(H, s, e) ==
  R(IF e.files # 0 THEN "handle" ELSE IF e.live # 0 THEN "leak"
    ELSE IF (e.r # 0) # (e.inj = 1) THEN "status"
    \* the content is not known after a reported failure that wrote a part of the data
    ELSE IF e.open = 1 /\ e.r = 0 /\ ~s.lost THEN FileOk(s.ch, s.rate, s.data, e.bytes) ELSE "", [s EXCEPT !.open = FALSE])
Open(H, s, e) ==
  LET v == e.src < 2 /\ Valid(e.bytes, e.gap) IN
  R(IF e.r = 0 /\ (~v \/ e.inj = 1) THEN "open" ELSE IF e.r # 0 /\ v /\ e.inj = 0 THEN "open"
    ELSE IF e.r = 0 /\ e.ch # U16(e.bytes, 22) THEN "channels" ELSE "",
    [s EXCEPT !.open = (e.r = 0), !.b = e.bytes, !.ch = e.ch, !.pos = IF v THEN DataAt(e.bytes, 36, e.gap) ELSE 0])
Read(H, s, e) ==
  LET left == Frames(s.b, s.ch, s.pos)  k == Min(e.n, left)  rest == Len(s.b) - s.pos
      fr(c, i) == Sub(s.b, s.pos + ((i - 1) * s.ch + c - 1) * 4, 4)
      given == e.n > 0 /\ rest >= 4
      \* a last part that is smaller than a frame can be reported either way
  IN
  R(IF ~s.open THEN "driver"
    ELSE IF e.live # 0 THEN "leak"
    ELSE IF e.inj = 1 THEN (IF e.r = 0 /\ e.n > 0 THEN "status" ELSE "")
    ELSE IF e.n > 0 /\ rest < 4 /\ e.r # 1 THEN "eof"
    ELSE IF e.n = 0 /\ e.r = 2 THEN "status"
    ELSE IF k > 0 /\ e.r # 0 THEN "status"
    ELSE IF \E c \in 1 .. s.ch : \E i \in 1 .. k : e.x[c][i] # fr(c, i) THEN "samples"
    ELSE IF \E c \in 1 .. s.ch : \E i \in k + 1 .. e.n : e.x[c][i] # <<>> THEN "outside"
    ELSE "", IF e.inj = 1 \/ ~given THEN s ELSE [s EXCEPT !.pos = IF e.n <= left THEN @ + e.n * 4 * s.ch ELSE Len(s.b)])
Inter(H, s, e) ==
  R(IF \E c \in 1 .. e.ch : \E i \in 1 .. e.n : e.b[(i - 1) * e.ch + c] # e.a[c][i] THEN "interleave" ELSE IF e.c # e.a THEN "deinterleave" ELSE "", s)
\* a long file of R repetitions of n frames, written and read back in parts. reads: size and status
RECURSIVE ReadStatus(_, _, _, _)
ReadStatus(rd, k, pos, total) ==
  k > Len(rd) \/ LET m == rd[k][1] r == rd[k][2] IN
    (IF m = 0 THEN r # 2 ELSE IF pos >= total THEN r = 1 ELSE r = 0) /\ ReadStatus(rd, k + 1, Min(total, pos + m), total)
RECURSIVE ReadSum(_, _, _)
ReadSum(rd, k, total) == IF k = 0 THEN 0 ELSE Min(total, rd[k][1] + ReadSum(rd, k - 1, total))
Long(H, s, e) ==
  LET total == e.n * e.R  data == Interleaved(e.x, e.n) IN
  R(IF e.sum # total THEN "driver" ELSE IF e.w # 0 THEN "status"
    ELSE IF e.head # Header(e.ch, e.rate, 4 * e.ch * total) THEN "header"
    ELSE IF e.len # 44 + 4 * e.ch * total \/ e.first # data \/ e.rep # 1 THEN "data"
    ELSE IF ~ReadStatus(e.rd, 1, 0, total) THEN "eof"
    ELSE IF e.brep # 1 \/ \E c \in 1 .. e.ch : \E i \in 1 .. Min(e.n, ReadSum(e.rd, Len(e.rd), total)) : e.back[c][i] # Sub(data, ((i - 1) * e.ch + c - 1) * 4, 4) THEN "samples"
    ELSE IF e.files # 0 THEN "handle" ELSE IF e.live # 0 THEN "leak" ELSE "", s)
Observe(H, s, e) ==
  CASE e.e = "create" -> Create(H, s, e) [] e.e = "write" -> Write(H, s, e) [] e.e = "written" -> Written(H, s, e)
    [] e.e = "open" -> Open(H, s, e) [] e.e = "read" -> Read(H, s, e)
    [] e.e = "closed" -> R(IF e.files # 0 THEN "handle" ELSE IF e.live # 0 THEN "leak" ELSE "", [s EXCEPT !.open = FALSE])
    [] e.e = "inter" -> Inter(H, s, e) [] e.e = "long" -> Long(H, s, e)
    [] e.e = "end" -> R("", s)
    [] e.e = "bad" -> R("driver", s)
    [] OTHER -> R("crash", s)
=============================================================================
