--------------------------------- MODULE Render ---------------------------------
(* rendering a range of an event. H: fn, ch, rate, start, end, leaves <<absolute start, absolute end>> (in order of construction), fp, fg: which
   leaf fails, kinds. the state has for each leaf whether it was prepared, the next position and how often it was freed *)
EXTENDS File
P == INSTANCE Plot
MaxI(a, b) == IF a > b THEN a ELSE b
Leaf(s) == DOMAIN s.prep
Fresh(H) == [prep |-> [k \in DOMAIN H.leaves |-> FALSE], pos |-> [k \in DOMAIN H.leaves |-> -1], freed |-> [k \in DOMAIN H.leaves |-> 0], fail |-> FALSE, from |-> 0, to |-> 0, on |-> FALSE, un |-> FALSE]
Value(n, c, p) == ((p * (n + 2) + c * 3 + n * 5) % 13) - 6
RECURSIVE Sum(_, _, _, _)
Sum(H, k, c, t) == IF k > Len(H.leaves) THEN 0 ELSE
  (IF H.leaves[k][1] <= t /\ t < H.leaves[k][2] THEN Value(k - 1, c, t - H.leaves[k][1]) ELSE 0) + Sum(H, k + 1, c, t)
\* sp_render_file and sp_render_plot
Whole(H) == H.fn \in {2, 3}
\* what is written to standard output. progress: one line with the percentage for each whole block
Rendering == <<114, 101, 110, 100, 101, 114, 105, 110, 103, 32>>
SecondsToFile == <<32, 115, 101, 99, 111, 110, 100, 115, 32, 116, 111, 32, 102, 105, 108, 101, 32, 64>>
ToPlot == <<115, 101, 99, 111, 110, 100, 115, 32, 116, 111, 32, 112, 108, 111, 116>>
Milli == <<109, 105, 108, 108, 105>>
Progress(H, rows, n, block) ==
  LET full == n \div block IN
  /\ Len(rows) = full
  /\ \A k \in 1 .. full : LET t == rows[k]  m == Len(t)  v == P!Number(SelectSeq(t, LAMBDA x : x \in 48 .. 57)) IN
       m > 3 /\ t[m] = 37 /\ t[m - 2] = 46 /\ (\A j \in 1 .. m : j \in {m, m - 2} \/ t[j] \in 48 .. 57) /\ P!Abs(v * full - 1000 * (k - 1)) * 2 <= full + 1
Messages(H, s, text) ==
  LET rows == P!Rows(text)  n == s.to - s.from IN
  P!Complete(text) /\
  CASE H.fn \in {0, 1} -> rows = <<>>
    [] H.fn = 4 -> Progress(H, rows, n, H.bs)
    [] H.fn = 2 -> Len(rows) > 0 /\ rows[1] = Rendering \o P!Digits(n \div H.rate) \o SecondsToFile /\ Progress(H, SubSeq(rows, 2, Len(rows)), n, H.bs)
    [] H.fn = 3 -> rows = <<Rendering \o (IF n < H.rate THEN P!Digits((n * 1000) \div H.rate) \o <<32>> \o Milli ELSE P!Digits(n \div H.rate) \o <<32>>) \o ToPlot>>
RInit0(H) == Fresh(H)
Build(H, s, e) == R("", Fresh(H))
Prep(H, s, e) ==
  LET k == e.n + 1 IN
  R(IF s.prep[k] THEN "prepared" ELSE IF s.freed[k] > 0 THEN "use after free" ELSE "", [s EXCEPT !.prep[k] = TRUE, !.fail = @ \/ e.r # 0])
Range(H, s, e) == R(IF e.end # H.total /\ e.end # H.unset THEN "end" ELSE "", [s EXCEPT !.on = TRUE, !.from = IF Whole(H) THEN 0 ELSE H.start, !.to = IF Whole(H) THEN H.total ELSE H.end])
GenL(H, s, e) ==
  LET k == e.n + 1  ls == H.leaves[k][1]  le == H.leaves[k][2]
      first == MaxI(0, s.from - ls) IN
  R(IF ~s.on \/ ~s.prep[k] THEN "unprepared" ELSE IF s.freed[k] > 0 THEN "use after free" ELSE IF s.fail THEN "continued"
    ELSE IF e.a # (IF s.pos[k] = -1 THEN first ELSE s.pos[k]) \/ e.b < e.a \/ (e.b = e.a /\ s.from < s.to) \/ ls + e.b > Min(le, s.to) THEN "range"
    ELSE IF e.ch # H.ch THEN "channels" ELSE "", [s EXCEPT !.pos[k] = e.b, !.fail = @ \/ e.r # 0])
FreeL(H, s, e) == R(IF s.freed[e.n + 1] > 0 THEN "freed twice" ELSE "", [s EXCEPT !.freed[e.n + 1] = @ + 1])
\* a value in quarters
Bytes(v) == F32(v, -2)
Rendered(H, s, e) ==
  LET n == s.to - s.from
      vals == [c \in 1 .. H.ch |-> [t \in 1 .. n |-> <<Sum(H, 1, c - 1, s.from + t - 1), -2>>]]
      done == \A k \in Leaf(s) : s.from < s.to /\ H.leaves[k][1] < s.to /\ H.leaves[k][2] > s.from => s.pos[k] = Min(H.leaves[k][2], s.to) - H.leaves[k][1]
  IN
  R(IF e.files # 0 THEN "handle"
    ELSE IF e.r # 0 /\ ~s.fail /\ e.inj = 0 THEN "status"
    ELSE IF e.r = 0 /\ (s.fail \/ (e.inj = 1 /\ H.fn # 3)) THEN "unreported"   \* plot functions have no status
    ELSE IF \E k \in Leaf(s) : s.freed[k] # 1 THEN "freed"
    ELSE IF e.r # 0 \/ e.inj = 1 THEN ""
    ELSE IF ~done THEN "incomplete"
    ELSE IF ~Messages(H, s, e.msg) THEN "messages"
    ELSE IF e.cmds # (IF H.fn = 3 THEN 1 ELSE 0) THEN "display"
    ELSE IF H.fn = 3 THEN (IF P!SamplesFile(e.bytes, [t \in 1 .. n |-> 250 * vals[1][t][1]]) THEN "" ELSE "samples")
    ELSE IF H.fn = 1 THEN (IF e.out # [c \in 1 .. H.ch |-> [t \in 1 .. n |-> vals[c][t][1]]] THEN "samples" ELSE "")
    ELSE LET d == Interleaved(vals, n) IN
      IF Len(e.bytes) < 44 \/ SubSeq(e.bytes, 45, Len(e.bytes)) # d THEN "samples"
      ELSE IF SubSeq(e.bytes, 1, 44) # Header(H.ch, H.rate, Len(d)) THEN "header" ELSE "", [s EXCEPT !.on = FALSE])
\* long renderings are recorded as the first 13 samples behind each cut, and if they repeat up to the next cut. values of leaves repeat every 13 positions
LongRendered(H, s, e) ==
  LET n == s.to - s.from  K == Len(H.cuts)  Rel(t) == t > s.from /\ t < s.to
      next(k) == IF k < K THEN H.cuts[k + 1] ELSE s.to
      seg(k) == e.segs[k]
      want(k) == [c \in 1 .. H.ch |-> [t \in 1 .. Min(13, next(k) - H.cuts[k]) |-> Sum(H, 1, c - 1, H.cuts[k] + t - 1)]]
      done == \A k \in Leaf(s) : H.leaves[k][1] < s.to /\ H.leaves[k][2] > s.from => s.pos[k] = Min(H.leaves[k][2], s.to) - H.leaves[k][1]
  IN
  R(IF (\A k \in Leaf(s) : \A j \in {1, 2} : Rel(H.leaves[k][j]) => \E x \in 1 .. K : H.cuts[x] = H.leaves[k][j]) /\ H.cuts[1] = s.from THEN
      (IF e.files # 0 THEN "handle" ELSE IF e.r # 0 THEN "status"
       ELSE IF \E k \in Leaf(s) : s.freed[k] # 1 THEN "freed"
       ELSE IF ~done THEN "incomplete"
       ELSE IF ~Messages(H, s, e.msg) THEN "messages"
       ELSE IF e.size # n \/ e.rest # 0 THEN "samples"
       ELSE IF \E k \in 1 .. K : seg(k)[1] # H.cuts[k] \/ seg(k)[3] # 1 \/ seg(k)[2] # want(k) THEN "samples"
       ELSE IF H.fn # 1 /\ e.bytes # Header(H.ch, H.rate, 4 * n * H.ch) THEN "header" ELSE "")
    ELSE "driver", [s EXCEPT !.on = FALSE])
RObserve(H, s, e) ==
  CASE e.e = "build" -> Build(H, s, e) [] e.e = "prep" -> Prep(H, s, e) [] e.e = "render" -> Range(H, s, e) [] e.e = "gen" -> GenL(H, s, e) [] e.e = "free" -> FreeL(H, s, e)
    [] e.e = "rendered" -> IF "cuts" \in DOMAIN H THEN LongRendered(H, s, e) ELSE Rendered(H, s, e)
    [] e.e = "unbuilt" -> R(IF ~s.fail THEN "build" ELSE "", s)
    [] e.e = "released" -> R(IF e.live # 0 THEN "leak" ELSE IF \E k \in Leaf(s) : s.freed[k] > 1 THEN "freed" ELSE "", s)
    [] e.e = "end" -> R("", s)
    [] e.e = "bad" -> R("driver", s)
    [] OTHER -> R("crash", s)
=============================================================================
