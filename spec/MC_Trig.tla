-------------------------------- MODULE MC_Trig --------------------------------
(* the table is the cosine: values at quarters, symmetry, second differences, and the sum of squares *)
EXTENDS Trig
VARIABLE k
Abs(a) == IF a < 0 THEN -a ELSE a
Init == k = 0
Next == k < 1023 /\ k' = k + 1
Spec == Init /\ [][Next]_k
At(j) == Table[j + 1]
Quarters == At(0) = Unit /\ At(256) = 0 /\ At(512) = -Unit /\ At(768) = 0 /\ At(1024) = Unit
Symmetry == At(1024 - k) = At(k) /\ (k <= 512 => At(512 - k) = -At(k))
\* c(k + 1) - 2 c(k) + c(k - 1) = -(2 - 2 cos(one step)) c(k), and the factor is 0.00003765
Curvature == k > 0 => Abs(At(k + 1) - 2 * At(k) + At(k - 1) + Div(At(k) * 3765, 100000000)) <= 2
Squares == LET c == Div(At(k), 10)  s == Div(At((k + 768) % 1024), 10) IN Abs(c * c + s * s - 100000000) <= 15000
\* interpolated values agree with the table's neighbours and with the double angle
Double == LET c == Cos(k, 1021) IN Abs(Cos(2 * k, 1021) - (Div(2 * Div(c, 10) * Div(c, 10), 1000) - Unit)) <= 30
Shift == Abs(Sin(k, 1024) - At((k + 768) % 1024)) <= 1
================================================================================
