------------------------------- MODULE Order -------------------------------
(* the order in which the contributions of the events of one list are added at a position: by start, events with the same start in the order
   in which they were added. Floating point sums depend on it. Values are written as pairs <<h, l>> for h * 2^60 + l with small l:
   a large value absorbs small ones, and large values that cancel out leave nothing of what they absorbed *)
EXTENDS Integers, Sequences, SequencesExt
LOCAL INSTANCE FiniteSets
Plus(a, b) == LET h == a[1] + b[1] IN IF h # 0 THEN <<h, 0>> ELSE IF a[1] = 0 THEN <<0, a[2] + b[2]>> ELSE <<0, 0>>
(* event: [s |-> start, d |-> duration, h, l, f |-> 0 or the status with which it fails] *)
Before(evs, j, k) == evs[j].s < evs[k].s \/ (evs[j].s = evs[k].s /\ j < k)
RECURSIVE Ordered(_, _)
Ordered(evs, left) == IF left = {} THEN <<>> ELSE LET k == CHOOSE x \in left : \A y \in left \ {x} : Before(evs, x, y) IN <<k>> \o Ordered(evs, left \ {k})
Covering(evs, p) == {k \in DOMAIN evs : evs[k].s <= p /\ p < evs[k].s + evs[k].d}
Value(evs, p) == FoldLeft(Plus, <<0, 0>>, [j \in 1 .. Cardinality(Covering(evs, p)) |-> LET k == Ordered(evs, Covering(evs, p))[j] IN <<evs[k].h, evs[k].l>>])
(* the status of a block: that of the first failing event in the order of the list, whatever order events are processed in *)
Within(evs, a, b) == {k \in DOMAIN evs : evs[k].s < b /\ a < evs[k].s + evs[k].d /\ evs[k].f # 0}
Status(evs, a, b) == LET w == Within(evs, a, b) IN IF w = {} THEN 0 ELSE evs[CHOOSE x \in w : \A y \in w \ {x} : Before(evs, x, y)].f
Init0(H) == [pos |-> H.first, k |-> 1]
Observe(H, s, e) ==
  IF e.e = "blk" THEN
    [g |-> IF s.k > Len(H.sizes) \/ e.a # s.pos \/ e.b # s.pos + H.sizes[s.k] THEN "range"
           ELSE IF e.r # Status(H.evs, e.a, e.b) THEN "status" ELSE IF e.r # 0 THEN ""
           ELSE IF \E j \in 1 .. H.sizes[s.k] : <<e.h[j], e.l[j]>> # Value(H.evs, s.pos + j - 1) THEN "order" ELSE "",
     s |-> [pos |-> e.b, k |-> IF e.r # 0 THEN Len(H.sizes) + 1 ELSE s.k + 1]]
  ELSE IF e.e = "end" THEN [g |-> IF s.k # Len(H.sizes) + 1 THEN "range" ELSE IF e.live # 0 THEN "leak" ELSE IF e.threads > 0 THEN "threads" ELSE "", s |-> s]
  ELSE [g |-> IF e.e = "race" THEN "race" ELSE IF e.e = "stuck" THEN "stuck" ELSE "crash", s |-> s]
=============================================================================
