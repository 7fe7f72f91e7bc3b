------------------------------- MODULE MC_Spectrum -------------------------------
(* the radix 2 algorithm with bit reversed input arrives at the transform as defined, the inverse restores the input,
   and changed impulse responses have the flipped frequency responses *)
EXTENDS Spectrum
CONSTANTS N, Low0, High0
Values == (-Low0) .. High0
VARIABLES x, re, im, size
vars == <<x, re, im, size>>
RECURSIVE BitReverse(_, _)
BitReverse(v, n) == IF n = 1 THEN 0 ELSE (v % 2) * (n \div 2) + BitReverse(v \div 2, n \div 2)
Init == /\ x \in [1 .. N -> Values] /\ size = 2
        /\ re = [k \in 1 .. N |-> 1000 * x[BitReverse(k - 1, N) + 1]] /\ im = [k \in 1 .. N |-> 0]
\* one pass over all butterflies of a size. k: index in the table
Pass(r, m, s) ==
  LET h == s \div 2
      T(i) == LET k == ((i % s) % h) * (N \div s)  l == (i - (i % s)) + ((i % s) % h) + h IN
              <<Div(Div(r[l + 1] * Div(Cos(k, N), 10), 1000) + Div(m[l + 1] * Div(Sin(k, N), 10), 1000), 10), Div(Div(m[l + 1] * Div(Cos(k, N), 10), 1000) - Div(r[l + 1] * Div(Sin(k, N), 10), 1000), 10)>>
      Base(i) == (i - (i % s)) + ((i % s) % h)
      Sign(i) == IF (i % s) < h THEN 1 ELSE -1 IN
  <<[i \in 1 .. N |-> r[Base(i - 1) + 1] + Sign(i - 1) * T(i - 1)[1]], [i \in 1 .. N |-> m[Base(i - 1) + 1] + Sign(i - 1) * T(i - 1)[2]]>>
Next == size <= N /\ LET p == Pass(re, im, size) IN re' = p[1] /\ im' = p[2] /\ size' = 2 * size /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
Static == Init /\ [][FALSE]_vars
Zero == [k \in 1 .. N |-> 0]
Correct == size > N => \A k \in 1 .. N : Close(re[k], Real(x, Zero, DOMAIN x, N, 1, k - 1), 8) /\ Close(im[k], Imag(x, Zero, DOMAIN x, N, 1, k - 1), 8)
Restored == size > N => \A k \in 1 .. N : Close(Div(Real([j \in 1 .. N |-> Div(re[j], 10)], [j \in 1 .. N |-> Div(im[j], 10)], DOMAIN x, N, -1, k - 1), N), 100000 * x[k], 1500)
\* power is kept
Parseval == size > N => Close(Total(LAMBDA k : Div(re[k] * re[k], 1000) + Div(im[k] * im[k], 1000), DOMAIN x), 1000 * N * Total(LAMBDA k : x[k] * x[k], DOMAIN x), 20 * N * N)
Symmetric == [k \in 1 .. 2 * N - 1 |-> 100000 * (IF k <= N THEN x[k] ELSE x[2 * N - k])]
Unitary == [k \in 1 .. 2 * N - 1 |-> IF k = N THEN 100000 ELSE 0]
Flips == size = 2 => \A f \in {0, 100, 125, 250, 333, 500} :
  /\ Close(Amplitude([k \in DOMAIN Symmetric |-> Unitary[k] - Symmetric[k]], f, 1000), 100000 - Amplitude(Symmetric, f, 1000), 20)
  /\ N % 2 = 1 => Close(Amplitude(Reversed(Symmetric), f, 1000), Amplitude(Symmetric, 500 - f, 1000), 60)
  /\ Inverted(Inverted(x)) = x \/ N % 2 = 0
=================================================================================
