----------------------------- MODULE MC_Convolve -----------------------------
(* the algorithm of filter.c and sp_convolve, with a carryover array that is extended and kept for longer earlier responses,
   against the ideal stream. every history of calls is a scenario for the implementation *)
EXTENDS Convolve, TLC
CONSTANTS Depth, NIr, NIn,
          KeepRest       \* FALSE: the length follows the newest response only (a mutation)
Irs == SubSeq(<< <<1>>, <<1, 3, 2, 5>>, <<2, 0, 1>>, <<0, 4>>, <<0, 0, 0, 0, 7>> >>, 1, NIr)
Ins == SubSeq(<< <<1>>, <<1, 2>>, <<3, 1, 2, 1>>, <<1, 0, 2>>, <<0, 1, 0, 2, 5, 1>>, <<>> >>, 1, NIn)
VARIABLES carry, clen, tail, out, ideal, hist
vars == <<carry, clen, tail, out, ideal, hist>>
Init == carry = <<>> /\ clen = 0 /\ tail = <<>> /\ out = <<>> /\ ideal = <<>> /\ hist = <<>>
Grow(c, n) == [k \in 1 .. Max(Len(c), n) |-> At(c, k)]
Call(in, ir) ==
  LET n == Len(in)
      cl == IF KeepRest THEN Max(Len(ir) - 1, clen) ELSE Len(ir) - 1
      c0 == [k \in DOMAIN Grow(carry, cl) |-> IF k > clen /\ k <= cl THEN 0 ELSE Grow(carry, cl)[k]]
      o0 == [k \in 1 .. n |-> IF k <= cl THEN c0[k] ELSE 0]
      c1 == [k \in DOMAIN c0 |-> IF k <= cl THEN (IF k + n <= cl THEN c0[k + n] ELSE 0) ELSE c0[k]]
      o1 == [k \in 1 .. n |-> o0[k] + ConvAt(in, ir, k)]
      c2 == [k \in DOMAIN c1 |-> c1[k] + (IF n = 0 THEN 0 ELSE ConvAt(in, ir, n + k))]
  IN /\ carry' = c2 /\ out' = o1 /\ clen' = (IF KeepRest THEN Max(Len(ir) - 1, Max(cl - n, 0)) ELSE Len(ir) - 1)
     /\ ideal' = OutOf(Sum(tail, in, ir), n) /\ tail' = TailOf(Sum(tail, in, ir), n)
Next ==
  /\ Len(hist) < Depth
  /\ \E a \in DOMAIN Ins, b \in DOMAIN Irs :
       /\ Call(Ins[a], Irs[b]) /\ hist' = Append(hist, <<a, b>>)
       /\ Len(hist) + 1 = Depth => PrintT(<<"SCN", hist'>>)
Spec == Init /\ [][Next]_vars
SameOutput == out = ideal
SameTail == \A k \in 1 .. Max(Len(tail), clen) : At(tail, k) = (IF k <= clen THEN carry[k] ELSE 0)
=============================================================================
