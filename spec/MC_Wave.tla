------------------------------- MODULE MC_Wave -------------------------------
(* a phase that is kept between blocks gives the closed form for all divisions, configurations and positions *)
EXTENDS Wave, TLC
CONSTANTS Dur, Frqs, Mods, Keep
VARIABLES pos, phs, cfg, ok
vars == <<pos, phs, cfg, ok>>
Cfg(f, fm, pm, ph) == [size |-> 5, wvf |-> <<0, 3, 7, -2, 9>>, n |-> Dur, start |-> 0, bg |-> 0, fn |-> 0, keep |-> 1, sphs |-> 0,
                       ch |-> <<<<1, 1, 0, f, fm, ph, pm, [k \in 1 .. Dur |-> k]>>>>]
Seqs == {<<>>} \cup [1 .. Dur -> Mods]
Init == pos = 0 /\ \E f \in Frqs, fm \in Seqs, pm \in Seqs, ph \in 0 .. 4 : cfg = Cfg(f, fm, pm, ph) /\ phs = ph /\ ok = TRUE
Next == \E b \in pos + 1 .. Dur :
  LET x == Eff(cfg, 1)  w == Walk(cfg, x, pos, b, <<phs>>) IN
  /\ ok' = \A p \in pos .. b - 1 : Value(cfg, x, p, w[p - pos + 1]) = Value(cfg, x, p, PhaseAt(cfg, x, p))
  /\ phs' = (IF Keep THEN w[Len(w)] ELSE x[Phs]) /\ pos' = b /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
Ok == ok
=============================================================================
