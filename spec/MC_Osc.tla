--------------------------------- MODULE MC_Osc ---------------------------------
(* an oscillator that advances in arbitrary steps, and laws of the definitions: periods, symmetry and ranges *)
EXTENDS Osc
CONSTANTS Cycle, Steps, Changes
VARIABLES phase, n, sum
vars == <<phase, n, sum>>
Init == phase \in 0 .. Cycle - 1 /\ n = 0 /\ sum = phase
\* the implementation only divides if the sum reaches the cycle
Next == n < Steps /\ n' = n + 1 /\ \E c \in Changes : sum' = sum + c /\ phase' = (IF phase + c < Cycle THEN phase + c ELSE (phase + c) % Cycle)
Spec == Init /\ [][Next]_vars
Accumulated == phase = sum % Cycle
\* laws of the wave forms at the accumulated time, for all divisions of the cycle
Waves == \A a \in 0 .. Cycle : LET b == Cycle - a  r == sum % Cycle IN
  /\ 0 <= TriNum(r, a, b) /\ TriNum(r, a, b) <= TriDen(r, a, b)
  \* the falling part is the mirrored rising part
  /\ (r < a /\ a = b) => TriNum(r, a, b) * TriDen((2 * a - r) % Cycle, a, b) = TriNum((2 * a - r) % Cycle, a, b) * TriDen(r, a, b)
  /\ Mod(<<sum \div 65536, sum % 65536>>, Cycle) = r
Squares == LET r == sum % Cycle IN /\ Square(r, Cycle) \in {-1, 1}
  /\ (Cycle % 2 = 0) => Square((r + Cycle \div 2) % Cycle, Cycle) = -Square(r, Cycle)
\* of each pair of channels one is always at full volume, pairs do not influence each other
Pans == \A v \in 0 .. 64 * 4, c \in {0, 2} :
  /\ Max(Pan(v, c), Pan(v, c + 1)) = 64 \/ v < 64 * c \/ v > 64 * (c + 1)
  /\ Pan(v, c) \in 0 .. 64 /\ Pan(v, c + 1) \in 0 .. 64
  /\ Pan(64 * c + 32, c) = 64 /\ Pan(64 * c + 32, c + 1) = 64 /\ Pan(64 * c, c + 1) = 0 /\ Pan(64 * c + 64, c) = 0
  /\ Pan(64 * c + 16, c + 1) = 32 /\ Pan(64 * c + 48, c) = 32
=================================================================================
