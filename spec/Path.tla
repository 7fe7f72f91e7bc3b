---------------------------------- MODULE Path ----------------------------------
(* sampled paths. a path is a sequence of points with x in 1/8 positions and integer y, and a curvature for each segment in 1/4.
   samples are in 1/10000. the state has the values that a general path gave for its points, which other variants and
   partial reads have to agree with *)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Q == 10000
\* positions k*8 of segment j
Inside(x, j, k) == x[j] <= 8 * k /\ 8 * k < x[j + 1]
SegOf(x, k) == CHOOSE j \in 1 .. Len(x) - 1 : Inside(x, j, k)
\* exact value of a line at k, multiplied by the length of the segment
LineOk(x, y, j, k, v, tol) ==
  LET d == x[j + 1] - x[j] IN Abs(d * (v - Q * y[j]) - Q * (y[j + 1] - y[j]) * (8 * k - x[j])) <= d * tol
\* arcs. the control point is where the perpendicular bisector leaves the rectangle of the two points, scaled by the curvature.
\* it lies below the line for positive curvatures, above for negative. all in 1/8 positions and values
\* values at a quarter, half and three quarters of the curve parameter
W(x, j) == x[j + 1] - x[j]
H8(y, j) == 8 * Abs(y[j + 1] - y[j])
\* offsets of the control point from the middle: <<x, y>> in 1/8, with a common factor for exactness left to tolerance
CtlDx(x, y, c, j) == LET w == W(x, j)  h == H8(y, j)  up == y[j + 1] > y[j]
                         m == IF h <= w THEN (h * h) \div (2 * w) ELSE w \div 2
                     IN ((IF up THEN 1 ELSE -1) * c * m) \div 4
CtlDy(x, y, c, j) == LET w == W(x, j)  h == H8(y, j)  m == IF h <= w THEN h \div 2 ELSE (w * w) \div (2 * h) IN -(c * m) \div 4
ArcSide(x, y, c, j, k, v) ==
  LET d == W(x, j)  e == d * (v - Q * y[j]) - Q * (y[j + 1] - y[j]) * (8 * k - x[j]) IN
  \* a position can be off by half of one
  LET slack == (Q * Abs(y[j + 1] - y[j]) * 8) + d * 3 IN IF c > 0 THEN e <= slack ELSE e >= -slack
\* at the parameter 1/2 the curve is at the middle plus half of the control point offset
ArcMiddle(e, j) ==
  LET x == e.x  y == e.y  c == e.c[j]
      mx == (x[j] + x[j + 1]) \div 2 + CtlDx(x, y, c, j) \div 2      \* 1/8
      my == (4 * (y[j] + y[j + 1]) + CtlDy(x, y, c, j) \div 2)       \* 1/8
      k == mx \div 8
  IN \* between the neighbours that enclose it
     (x[j] \div 8 + 2 <= k /\ k + 2 < x[j + 1] \div 8) =>
       LET lo == Min(e.out[k - 1], e.out[k + 3])  hi == Max(e.out[k - 1], e.out[k + 3]) IN my * (Q \div 8) >= lo - Q \div 4 /\ my * (Q \div 8) <= hi + Q \div 4

PathOk(e, tol) ==
  \A k \in 0 .. e.len - 1 :
    LET j == SegOf(e.x, k)  v == e.out[k + 1]  lo == Q * Min(e.y[j], e.y[j + 1])  hi == Q * Max(e.y[j], e.y[j + 1]) IN
    IF e.c[j] = 0 THEN LineOk(e.x, e.y, j, k, v, tol)
    ELSE /\ v >= lo - tol /\ v <= hi + tol
         /\ (k > 0 /\ Inside(e.x, j, k - 1)) => (IF e.y[j + 1] > e.y[j] THEN v >= e.out[k] - tol ELSE v <= e.out[k] + tol)
         /\ tol = 1 => ArcSide(e.x, e.y, e.c[j], j, k, v)
\* positions with fractional points: lines between the values that surround them
FracOk(e, tol) ==
  \A k \in 0 .. e.len - 1 :
    LET v == e.out[k + 1]  S == {j \in 1 .. Len(e.x) - 1 : 8 * k + 8 > e.x[j] /\ 8 * k - 8 < e.x[j + 1]} IN
    /\ \E j \in S : v >= Q * Min(e.y[j], e.y[j + 1]) - tol
    /\ \E j \in S : v <= Q * Max(e.y[j], e.y[j + 1]) + tol
    /\ \A j \in S : (e.c[j] = 0 /\ e.x[j] <= 8 * k /\ 8 * k + 8 <= e.x[j + 1]) => LineOk(e.x, e.y, j, k, v, tol)
Whole(e) == \A j \in DOMAIN e.x : e.x[j] % 8 = 0

Init0(H) == [ref |-> <<>>, key |-> <<>>, got |-> [k \in {} |-> 0]]
R(g, s) == [g |-> g, s |-> s]
PathE(H, s, e) ==
  LET times == e.v \in 10 .. 19 \/ e.v \in 30 .. 49
      \* variants from 40 have twice the values
      f == IF e.v < 40 THEN 1 ELSE 2
      tol == IF times THEN f * (Q \div 2) + 1 ELSE 1
      key == <<e.len, e.x, e.y, e.c>>
      curved == \E j \in DOMAIN e.c : e.c[j] # 0
  IN R(IF e.r # 0 THEN "status" ELSE IF Len(e.out) # e.len THEN "length" ELSE IF e.same # 1 THEN "inputs"
       ELSE IF times /\ \E k \in DOMAIN e.out : e.out[k] % (f * Q) # 0 THEN "times"
       ELSE IF ~(IF Whole(e) THEN PathOk(e, tol) ELSE FracOk(e, tol)) THEN "path"
       ELSE IF ~times /\ Whole(e) /\ \E j \in DOMAIN e.c : e.c[j] # 0 /\ ~ArcMiddle(e, j) THEN "curvature"
       \* the form of arcs depends on the scale
       ELSE IF s.key = key /\ ~(f = 2 /\ curved) /\ \E k \in DOMAIN e.out : Abs(e.out[k] - s.ref[k]) > (IF times THEN tol ELSE 0) THEN "variant"
       ELSE "", IF e.v = 0 THEN [s EXCEPT !.key = key, !.ref = e.out] ELSE s)
\* curves whose control points have equal distances in x: y of the curve at n / w, times w to the power of the degree
RECURSIVE Bezier(_, _, _), Pow(_, _)
Bezier(p, n, w) == IF Len(p) = 1 THEN p[1] ELSE Bezier([i \in 1 .. Len(p) - 1 |-> (w - n) * p[i] + n * p[i + 1]], n, w)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
\* the value at a position is one that the curve has nearer to this than to other positions. values in 1/20 with one part tolerance and the bend between the ends
CurveOk(p, fx, tx, k, v) ==
  LET w == tx - fx  d == Len(p) - 1  s == Pow(w, d)
      At(n) == 20 * Bezier(p, Max(0, Min(w, n)), w)
      m == 8 * k - fx  a == At(m - 4)  b == At(m)  c == At(m + 4)
      bend == s \div 10 + (IF d = 2 THEN 20 * 16 * 48 ELSE 20 * 48 * w * 48)
  IN (v \div 500) * s >= Min(a, Min(b, c)) - bend - s /\ (v \div 500) * s <= Max(a, Max(b, c)) + bend
\* reads of any parts agree. H.segs: what is known about the path <<kind, x1, y1, x2, y2>>
SegValue(H, k, v) ==
  \A j \in DOMAIN H.segs : LET g == H.segs[j]  fx == g[2]  tx == g[4] IN
    (fx <= 8 * k /\ 8 * k + 8 <= tx) =>
      CASE g[1] = "line" -> LineOk(<<fx, tx>>, <<g[3], g[5]>>, 1, k, v, 1)
        [] g[1] = "const" -> v = Q * g[3]
        [] g[1] = "move" -> v = 0
        [] g[1] = "hull" -> v >= Q * g[3] - 1 /\ v <= Q * g[5] + 1
        [] g[1] = "curve" -> CurveOk(g[6], fx, tx, k, v)
        [] g[1] = "start" -> 8 * k = fx => Abs(v - Q * g[3]) <= 1
GetE(H, s, e) ==
  R(IF Len(e.out) # e.b - e.a THEN "length"
    ELSE IF \E k \in DOMAIN e.out : Abs(e.out[k]) > 10000 * Q THEN "unwritten"
    ELSE IF \E k \in DOMAIN e.out : (e.a + k - 1) \in DOMAIN s.got /\ Abs(s.got[e.a + k - 1] - e.out[k]) > 1 THEN "parts"
    ELSE IF \E k \in DOMAIN e.out : ~SegValue(H, e.a + k - 1, e.out[k]) THEN "path" ELSE "",
    [s EXCEPT !.got = [p \in DOMAIN @ \cup e.a .. e.b - 1 |-> IF p \in DOMAIN @ THEN @[p] ELSE e.out[p - e.a + 1]]])
\* start, end and size of a path. a constant at the end does not end
EndsE(H, s, e) == R(IF e.sx = 0 /\ e.sy = 0 /\ e.ex = H.fin[1] /\ Abs(e.ey - Q * H.fin[2]) <= 1 /\ e.size = H.fin[1] \div 8 THEN "" ELSE "ends", s)
\* long paths. windows of 12 values in 1/100: <<position, values of the array, values of the path read in these parts>>
LongOk(e) ==
  \A w \in DOMAIN e.w : LET p == e.w[w][1] IN \A i \in 1 .. 12 :
    LET k == p + i - 1  v == e.w[w][2][i]  u == e.w[w][3][i]  tol == IF e.v > 0 THEN 51 ELSE 1
        j == CHOOSE j \in 1 .. Len(e.x) - 1 : e.x[j] <= k /\ k < e.x[j + 1]  d == e.x[j + 1] - e.x[j]
        line == 100 * (e.y[j + 1] - e.y[j]) * (k - e.x[j])  lo == 100 * Min(e.y[j], e.y[j + 1])  hi == 100 * Max(e.y[j], e.y[j + 1])
        next == i < 12 /\ k + 1 < e.x[j + 1]
        Up(a, b, t) == IF e.y[j + 1] > e.y[j] THEN b >= a - t ELSE b <= a + t
    IN /\ Abs(v - u) <= tol
       /\ e.v > 0 => v % 100 = 0
       /\ IF e.c[j] = 0 THEN Abs(d * (u - 100 * e.y[j]) - line) <= d
          ELSE /\ u >= lo - 1 /\ u <= hi + 1
               /\ next => Up(u, e.w[w][3][i + 1], 1)
               \* positive curvatures are below the line. a position can be off by half of one
               /\ LET z == d * (u - 100 * e.y[j]) - line  slack == 100 * Abs(e.y[j + 1] - e.y[j]) + 2 * d IN IF e.c[j] > 0 THEN z <= slack ELSE z >= -slack
LongE(H, s, e) == R(IF e.r # 0 THEN "status" ELSE IF e.size # e.len THEN "ends" ELSE IF ~LongOk(e) THEN "path" ELSE "", s)
Observe(H, s, e) ==
  CASE e.e = "path" -> PathE(H, s, e) [] e.e = "get" -> GetE(H, s, e) [] e.e = "long" -> LongE(H, s, e) [] e.e = "ends" -> EndsE(H, s, e)
    [] e.e = "end" -> R(IF e.live # 0 THEN "leak" ELSE "", s)
    [] e.e = "bad" -> R("driver", s)
    [] OTHER -> R("crash", s)
=============================================================================
