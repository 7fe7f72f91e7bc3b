--------------------------------- MODULE Mix ---------------------------------
(* compositions of the event types of the library. H.nodes are records with k: wave (a configuration of Wave), group (kids <<node, start>>),
   map (kid, mul: copies of the wrapped event multiplied), add (kid, c: a ramp is added), noise (recorded alone before). members come before their groups.
   samples have the unit 2^-16. the output of the composition is decided by the outputs of the parts alone, whatever renders it.
   H.late: noises that are prepared while rendering take their seeds from a state shared by all threads. the seeds then belong to any order of
   the noises, cand are the orders that explain the output so far *)
EXTENDS Integers, Sequences, SequencesExt, TLC
W == INSTANCE Wave
Unit == 65536
At(t, p) == IF p \in 1 .. Len(t) THEN t[p] ELSE 0
Force(f, n) == SubSeq(f, 1, n)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
WaveTab(N, o) ==
  LET T == W!Targets(N, o)
      walk == [c \in T |-> LET x == W!Eff(N, c) IN Force(W!Walk(N, x, 0, N.n, <<x[W!Phs] % N.size>>), N.n)]
  IN Force([p \in 1 .. N.n |-> Unit * W!SumSet([c \in T |-> W!Value(N, W!Eff(N, c), p - 1, walk[c][p])], T)], N.n)
RECURSIVE SumKids(_, _, _, _, _)
SumKids(tab, kids, o, p, k) == IF k = 0 THEN 0 ELSE At(tab[kids[k][1]][o], p - kids[k][2]) + SumKids(tab, kids, o, p, k - 1)
SumTab(tab, kids, o) ==
  LET n == MaxOf({0} \cup {kids[k][2] + Len(tab[kids[k][1]][o]) : k \in DOMAIN kids}) IN Force([p \in 1 .. n |-> SumKids(tab, kids, o, p, Len(kids))], n)
NodeTab(H, alone, tab, j, o) ==
  LET N == H.nodes[j] IN
  CASE N.k = "wave" -> WaveTab(N, o - 1)
    [] N.k = "group" -> SumTab(tab, N.kids, o)
    [] N.k = "map" -> LET t == tab[N.kid][o] IN Force([p \in 1 .. Len(t) |-> N.mul * t[p]], Len(t))
    [] N.k = "add" -> LET t == tab[N.kid][o] IN Force([p \in 1 .. Len(t) |-> t[p] + Unit * N.mul * p], Len(t))
    [] N.k = "noise" -> alone[j][o]
RECURSIVE Tabs(_, _, _)
Tabs(H, alone, tab) ==
  IF Len(tab) = Len(H.nodes) THEN tab
  ELSE Tabs(H, alone, Append(tab, Force([o \in 1 .. H.cc |-> NodeTab(H, alone, tab, Len(tab) + 1, o)], H.cc)))
Init0(H) == [alone |-> [j \in DOMAIN H.nodes |-> <<>>], cand |-> <<>>, pos |-> -1, race |-> FALSE]
R(g, s) == [g |-> g, s |-> s]
Abs(a) == IF a < 0 THEN -a ELSE a
Alone(H, s, e) ==
  R(IF e.r # 0 THEN "status" ELSE IF s.pos # -1 \/ H.nodes[e.n].k # "noise" \/ s.alone[e.n] # <<>> \/ \E o \in 1 .. H.cc : Len(e.out[o]) # H.nodes[e.n].n THEN "driver" ELSE "", [s EXCEPT !.alone[e.n] = e.out])
Noises(H) == {j \in DOMAIN H.nodes : H.nodes[j].k = "noise"}
Orders(H) == IF H.late = 1 THEN Permutations(Noises(H)) ELSE {[j \in Noises(H) |-> j]}
Plain(p) == \A j \in DOMAIN p : p[j] = j
Total(H, alone) == LET tab == Tabs(H, alone, <<>>) IN Force([o \in 1 .. H.cc |-> SumTab(tab, H.roots, o)], H.cc)
Go(H, s, e) ==
  R(IF e.r # 0 THEN "status" ELSE IF \E j \in Noises(H) : s.alone[j] = <<>> THEN "driver" ELSE "",
    [s EXCEPT !.pos = H.start, !.cand = LET ps == SetToSeq(Orders(H)) IN
       Force([k \in 1 .. Len(ps) |-> [plain |-> Plain(ps[k]), out |-> Total(H, [j \in DOMAIN H.nodes |-> IF j \in DOMAIN ps[k] THEN s.alone[ps[k][j]] ELSE <<>>])]], Len(ps))])
Blk(H, s, e) ==
  LET n == e.b - e.a
      ok(c) == \A o \in 1 .. H.cc : \A k \in 1 .. n : Abs(e.out[o][k] - At(c.out[o], e.a + k)) <= H.tol
      rest == SelectSeq(s.cand, ok)
  IN R(IF e.r # 0 THEN "status" ELSE IF e.a # s.pos THEN "driver" ELSE IF Len(e.out) # H.cc \/ (\E o \in 1 .. H.cc : Len(e.out[o]) # n) THEN "output" ELSE IF rest = <<>> THEN "output" ELSE "", [s EXCEPT !.pos = e.b, !.cand = rest])
End(H, s, e) ==
  R(IF e.live # 0 THEN "leak" ELSE IF e.threads > 0 THEN "threads" ELSE IF s.pos # H.end THEN "crash"
    ELSE IF s.race \/ \A k \in DOMAIN s.cand : ~s.cand[k].plain THEN "known" ELSE "", s)
Observe(H, s, e) ==
  CASE e.e = "alone" -> Alone(H, s, e) [] e.e = "go" -> Go(H, s, e) [] e.e = "blk" -> Blk(H, s, e)
    [] e.e = "end" -> End(H, s, e)
    [] e.e = "race" -> R(IF H.late = 1 /\ e.rs = 1 THEN "" ELSE "race", [s EXCEPT !.race = TRUE])
    [] e.e \in {"stuck", "timeout"} -> R("stuck", s)
    [] OTHER -> R("crash", s)
=============================================================================
