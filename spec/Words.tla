------------------------------- MODULE Words -------------------------------
(* unsigned integers as bytes, lowest first, for values that exceed the integers of the model checker *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
W(n) == [1 .. n -> 0 .. 255]
(* evaluated once *)
Tup(f, n) == SubSeq(f, 1, n)
At(x, i) == IF i \in DOMAIN x THEN x[i] ELSE 0
RECURSIVE Norm(_, _, _, _)
(* n bytes of the sum of digits f that can be greater than 255 or less than 0 *)
Norm(f, k, carry, n) == IF k > n THEN <<>> ELSE LET v == At(f, k) + carry IN <<v % 256>> \o Norm(f, k + 1, v \div 256, n)
Fit(f, n) == Norm(SubSeq(f, 1, Len(f)), 1, 0, n)
FromInt(v, n) == Fit(<<v>>, n)
AddW(x, y, n) == Fit([i \in 1 .. n |-> At(x, i) + At(y, i)], n)
SubW(x, y, n) == Fit([i \in 1 .. n |-> At(x, i) - At(y, i)], n)
RECURSIVE Conv(_, _, _, _)
Conv(x, y, k, i) == IF i = 0 THEN 0 ELSE At(x, i) * At(y, k - i + 1) + Conv(x, y, k, i - 1)
(* n bytes of the product *)
MulW(x, y, n) == Fit([k \in 1 .. n |-> Conv(x, y, k, k)], n)
RECURSIVE LessFrom(_, _, _)
LessFrom(x, y, k) == IF k = 0 THEN FALSE ELSE IF At(x, k) # At(y, k) THEN At(x, k) < At(y, k) ELSE LessFrom(x, y, k - 1)
LessW(x, y) == LessFrom(x, y, IF Len(x) > Len(y) THEN Len(x) ELSE Len(y))
XorW(x, y) == Tup([i \in DOMAIN x |-> x[i] ^^ y[i]], Len(x))
P2(k) == <<1, 2, 4, 8, 16, 32, 64, 128>>[k + 1]
Shl(x, k) == Tup(LET b == k \div 8 r == k % 8 IN [i \in DOMAIN x |-> ((At(x, i - b) * P2(r)) % 256) + ((At(x, i - b - 1) * P2(r)) \div 256)], Len(x))
Shr(x, k) == Tup(LET b == k \div 8 r == k % 8 IN [i \in DOMAIN x |-> (At(x, i + b) \div P2(r)) + (((At(x, i + b + 1) * 256) \div P2(r)) % 256)], Len(x))
Rotl(x, k) == Tup(LET a == Shl(x, k) c == Shr(x, 64 - k) IN [i \in DOMAIN x |-> a[i] + c[i]], Len(x))
BitW(x, k) == (At(x, (k \div 8) + 1) \div P2(k % 8)) % 2
RECURSIVE ModW(_, _, _, _)
(* x modulo y by long division. bits k .. 0 of x are left, r is the remainder so far, 9 bytes *)
ModW(x, y, k, r) ==
  IF k < 0 THEN r
  ELSE LET d == AddW(Shl(r, 1), <<BitW(x, k)>>, 9) IN ModW(x, y, k - 1, IF LessW(d, y) THEN d ELSE SubW(d, y, 9))
Zero9 == [i \in 1 .. 9 |-> 0]
ToInt(x) == x[1] + 256 * (At(x, 2) + 256 * (At(x, 3) + 256 * At(x, 4)))
============================================================================
