------------------------------ MODULE MC_Average ------------------------------
(* a running sum as in sp_moving_average gives the centred windows, and segments with their neighbours give what the whole gives *)
EXTENDS Convolve, TLC
CONSTANTS N, Rad, Vals
VARIABLES sig, seg, pos, sum, ok
vars == <<sig, seg, pos, sum, ok>>
Whole == [in |-> sig, prev |-> <<>>, next |-> <<>>, hp |-> 0, hn |-> 0, r |-> Rad]
Part(a, b) ==   \* segment a..b with what is known around it
  [in |-> SubSeq(sig, a, b), r |-> Rad, hp |-> IF a - 1 >= b - a + 1 THEN 1 ELSE 0, hn |-> IF N - b >= Rad THEN 1 ELSE 0,
   prev |-> IF a - 1 >= b - a + 1 THEN SubSeq(sig, a - (b - a + 1), a - 1) ELSE <<>>, next |-> IF N - b >= Rad THEN SubSeq(sig, b + 1, b + Rad) ELSE <<>>]
Init == /\ sig \in [1 .. N -> Vals] /\ seg \in {<<a, b>> \in (1 .. N) \X (1 .. N) : b - a + 1 >= 2 * Rad + 1} /\ pos = 0 /\ sum = 0 /\ ok = TRUE
\* the running sum
Next ==
  LET p == Part(seg[1], seg[2])  n == Len(p.in) IN
  /\ pos < n
  /\ pos' = pos + 1
  /\ sum' = IF pos = 0 THEN Window(p, 1) ELSE sum + In(p, pos + 1 + Rad) - In(p, pos - Rad)
  /\ ok' = (/\ sum' = Window(p, pos + 1)
            \* same as in the whole, except where a neighbour is not known
            /\ ((p.hp = 1 \/ seg[1] = 1 \/ pos + 1 > Rad) /\ (p.hn = 1 \/ seg[2] = N \/ pos + 1 <= n - Rad) => sum' = Window(Whole, seg[1] + pos)))
  /\ UNCHANGED <<sig, seg>>
Spec == Init /\ [][Next]_vars
Ok == ok
=============================================================================
