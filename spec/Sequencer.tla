----------------------------- MODULE Sequencer -----------------------------
(* Observable behaviour of event lists, groups, map events and event memory.
   The state is a record s; for each observable step x there is a guard
   Gx(H, s, e), the name of the violated rule or "" if the step is allowed,
   and an effect Ex(H, s, e). MC_Seq drives them with a model of the list walk
   algorithm, TraceSeq with events recorded from the library.
   H is the static description: H.nodes[n + 1] = [kind, zdur, fw, dig],
   H.cc the channel count, H.par whether threads are used.
   kinds: 0 leaf, 1 group, 2 parallel group, 3 map in place, 4 isolating map that
   passes its input on, 5 isolating map that drops it, 6 leaf that is freed only
   through its registered memory, 7 a crowd of H.nodes[..].cn equal events, each of which adds one.
   rule tags: window output status life rel leak order *)
EXTENDS Integers, Sequences, FiniteSets

Nodes(H) == 0 .. (Len(H.nodes) - 1)
Kind(H, n) == H.nodes[n + 1].kind
Dig(H, n) == H.nodes[n + 1].dig
IsLeaf(H, n) == Kind(H, n) \in {0, 6, 7}
IsGroup(H, n) == Kind(H, n) \in {1, 2}
IsMap(H, n) == Kind(H, n) \in {3, 4, 5}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

NONE == -2   \* not attached
TOP == -1    \* the list given to the block calls

Init0(H) ==
  [ mode |-> "idle",
    par |-> [n \in Nodes(H) |-> NONE],
    st |-> [n \in Nodes(H) |-> 0],
    en |-> [n \in Nodes(H) |-> 0],
    ph |-> [n \in Nodes(H) |-> 0],       \* 0 new 1 prepared 2 freed
    zero |-> [n \in Nodes(H) |-> FALSE], \* prepared when it was added
    need |-> [n \in Nodes(H) |-> 0],     \* next position to be rendered in the current block
    pos |-> [n \in Nodes(H) |-> 0],      \* end of what has been rendered
    act |-> {},                          \* generators running
    ab |-> [n \in Nodes(H) |-> 0],       \* absolute start, set when a block starts
    hi |-> [n \in Nodes(H) |-> 0],       \* absolute end of the part that can be rendered
    regs |-> {}, rels |-> 0,
    sub |-> NONE,                        \* subject of the call being observed
    bs |-> 0, be |-> 0, bpar |-> 0, pre |-> 0,
    failed |-> {},                       \* statuses of callbacks that failed in the current call
    sorted |-> FALSE ]

RECURSIVE Attached(_, _), AbsStart(_, _, _), AbsEnd(_, _, _), Under(_, _, _)
\* reachable from the top list
Attached(s, n) == IF s.par[n] = TOP THEN TRUE ELSE IF s.par[n] = NONE THEN FALSE ELSE Attached(s, s.par[n])
\* n is below a
Under(s, n, a) == IF s.par[n] < 0 THEN FALSE ELSE IF s.par[n] = a THEN TRUE ELSE Under(s, s.par[n], a)
AbsStart(H, s, n) ==
  IF s.par[n] < 0 THEN s.st[n]
  ELSE IF IsMap(H, s.par[n]) THEN AbsStart(H, s, s.par[n])
  ELSE AbsStart(H, s, s.par[n]) + s.st[n]
AbsEnd(H, s, n) ==
  IF s.par[n] < 0 THEN s.en[n]
  ELSE IF IsMap(H, s.par[n]) THEN AbsEnd(H, s, s.par[n])
  ELSE Min2(AbsStart(H, s, s.par[n]) + s.en[n], AbsEnd(H, s, s.par[n]))

\* the part of node n that is inside the current block, absolute
WLo(s, n) == Max2(s.ab[n], s.bs)
WHi(s, n) == Min2(s.hi[n], s.be)
Active(s, n) == WLo(s, n) < WHi(s, n)

RECURSIVE Expired(_, _, _), Hidden(_, _, _, _)
\* the block call has to have freed it when it returns
Expired(H, s, n) ==
  IF s.par[n] = NONE THEN FALSE
  ELSE IF s.par[n] = TOP THEN s.hi[n] <= s.bs
  ELSE IF IsMap(H, s.par[n]) THEN Expired(H, s, s.par[n])
  ELSE Expired(H, s, s.par[n]) \/ (Active(s, s.par[n]) /\ s.hi[n] <= s.bs)
\* an isolating map between n and top drops what n writes
Hidden(H, s, n, top) ==
  IF s.par[n] < 0 \/ s.par[n] = top THEN FALSE
  ELSE Kind(H, s.par[n]) = 5 \/ Hidden(H, s, s.par[n], top)

\* groups, maps and leaves without an own function are seen to be freed by the release of their memory
IsFreed(H, s, n) == IF Kind(H, n) \notin {0, 7} THEN ~\E r \in s.regs : r[1] = n ELSE s.ph[n] = 2

\* value of node n at absolute position x, channel index c
Contribution(H, s, n, x, c) ==
  IF x >= s.ab[n] /\ x < s.hi[n] THEN (IF Kind(H, n) = 7 THEN H.nodes[n + 1].cn ELSE ((x - s.ab[n]) % 64) + 1 + c) ELSE 0

-----------------------------------------------------------------------------
(* building lists *)
GAddB(H, s, e) == IF s.mode # "idle" \/ s.par[e.n] # NONE THEN "driver" ELSE ""
EAddB(H, s, e) ==
  LET k == e.n
      en == IF e.t = -1 THEN s.en[k] + e.s ELSE e.t IN
  [s EXCEPT !.mode = "add", !.sub = k, !.st[k] = e.s, !.en[k] = en, !.zero[k] = (en = 0 /\ e.g >= 0), !.failed = {}]

GAddE(H, s, e, b) ==
  LET k == e.n
      en == IF b.app = 1 THEN s.en[k] + s.en[b.g] ELSE s.en[k] IN
  IF e.r # 0 THEN
    IF s.failed # {} /\ e.r \notin s.failed THEN "status"
    ELSE IF s.failed = {} THEN "status"
    ELSE IF ~IsFreed(H, s, k) \/ \E n \in Nodes(H) : Under(s, n, k) /\ ~IsFreed(H, s, n) THEN "life" ELSE ""
  ELSE IF s.failed # {} THEN "status"
  ELSE IF s.zero[k] /\ s.ph[k] # 1 THEN "life"
  ELSE IF s.ph[k] = 2 THEN "life"
  ELSE IF b.g >= 0 /\ e.ge # (IF b.app = 1 THEN en ELSE Max2(s.en[b.g], en)) THEN "window" ELSE ""
EAddE(H, s, e, b) ==
  LET k == e.n
      base == IF b.app = 1 THEN s.en[b.g] ELSE 0
      en == s.en[k] + base IN
  IF e.r # 0 THEN [s EXCEPT !.mode = "idle", !.sub = NONE, !.failed = {}]
  ELSE LET t == [s EXCEPT !.mode = "idle", !.sub = NONE, !.par[k] = b.g, !.st[k] = @ + base, !.en[k] = en] IN
       IF b.g < 0 THEN t
       ELSE [t EXCEPT !.en[b.g] = IF b.app = 1 THEN en ELSE Max2(@, en)]

EWrap(H, s, e) ==
  [s EXCEPT !.par[e.n] = e.g, !.st[e.n] = e.s, !.en[e.n] = e.t, !.st[e.g] = e.s, !.en[e.g] = e.t]

-----------------------------------------------------------------------------
(* callbacks *)
GPrep(H, s, e) ==
  LET k == e.n IN
  IF s.ph[k] # 0 THEN "life"
  ELSE IF s.mode = "add" THEN
    IF (k = s.sub \/ Under(s, k, s.sub)) /\ s.zero[s.sub] THEN "" ELSE "life"
  ELSE IF s.mode # "blk" \/ ~Attached(s, k) THEN "life"
  ELSE IF s.failed # {} /\ H.par = 0 THEN "fail"
  ELSE ""
EPrep(H, s, e) ==
  LET k == e.n IN
  IF e.r # 0 THEN [s EXCEPT !.failed = @ \cup {e.r}, !.ph[k] = 1]
  ELSE IF H.nodes[k + 1].zdur = 0 \/ ~IsLeaf(H, k) THEN [s EXCEPT !.ph[k] = 1]
  ELSE IF s.mode = "add" THEN [s EXCEPT !.ph[k] = 1, !.en[k] = s.st[k] + H.nodes[k + 1].zdur]
  \* prepare can also set the end of events that are in a list already
  ELSE LET t == [s EXCEPT !.ph[k] = 1, !.en[k] = s.st[k] + H.nodes[k + 1].zdur] IN [t EXCEPT !.hi[k] = AbsEnd(H, t, k)]

GGen(H, s, e) ==
  LET k == e.n IN
  IF s.mode # "blk" \/ ~Attached(s, k) THEN "life"
  ELSE IF s.ph[k] # 1 THEN "life"
  ELSE IF k \in s.act THEN "life"
  ELSE IF s.failed # {} /\ H.par = 0 THEN "fail"
  ELSE IF e.c # H.cc THEN "window"
  ELSE IF ~Active(s, k) THEN "window"
  ELSE IF e.a # s.need[k] \/ e.b <= e.a \/ s.ab[k] + e.b > WHi(s, k) THEN "window"
  ELSE ""
EGen(H, s, e) ==
  LET k == e.n IN
  [s EXCEPT !.need[k] = e.b, !.pos[k] = Max2(@, e.b),
            !.failed = IF e.r = 0 THEN @ ELSE @ \cup {e.r},
            !.act = IF H.par = 1 THEN @ \cup {k} ELSE @]
GGend(H, s, e) == IF e.n \notin s.act THEN "life" ELSE IF s.mode # "blk" THEN "life" ELSE ""
EGend(H, s, e) == [s EXCEPT !.act = @ \ {e.n}]

\* what a mapper has to find in its input: position i (from 1) of range start a, channel index c, digit d
MapIn(H, s, m, a, d, i, c) ==
  LET S == {n \in Nodes(H) : Dig(H, n) = d /\ Under(s, n, m) /\ ~Hidden(H, s, n, m)} IN
  IF d = 0 \/ S = {} THEN 0 ELSE Contribution(H, s, CHOOSE n \in S : TRUE, s.ab[m] + a + i - 1, c)

GMap(H, s, e) ==
  LET m == e.n
      below == {n \in Nodes(H) : Under(s, n, m)} IN
  IF s.mode # "blk" \/ ~Attached(s, m) \/ s.ph[m] # 1 THEN "life"
  ELSE IF s.failed # {} /\ H.par = 0 THEN "fail"
  ELSE IF e.c # H.cc THEN "map"
  ELSE IF ~Active(s, m) \/ e.a # s.need[m] \/ e.b <= e.a \/ s.ab[m] + e.b > WHi(s, m) THEN "map"
  ELSE IF \E n \in below : IsLeaf(H, n) /\ Active(s, n) /\ s.ab[n] + s.need[n] < Min2(WHi(s, n), s.ab[m] + e.b)
            /\ s.ab[n] < s.ab[m] + e.b THEN "map"
  ELSE IF (Kind(H, m) = 3) # (e.same = 1) THEN "map"
  ELSE IF e.rest # 1 THEN "map"
  ELSE IF \E c \in 1 .. H.cc : \E d \in 1 .. 7 : \E i \in 1 .. (e.b - e.a) :
            LET x == e["in"][c][d][i]
                y == MapIn(H, s, m, e.a, d - 1, i, c - 1) IN
            IF Kind(H, m) = 3 THEN y # 0 /\ x # y ELSE x # y THEN "map"
  ELSE ""
EMap(H, s, e) ==
  LET m == e.n IN
  [s EXCEPT !.need[m] = e.b, !.pos[m] = Max2(@, e.b), !.failed = IF e.r = 0 THEN @ ELSE @ \cup {e.r}]

\* an event may be freed now
MayFree(H, s, k) ==
  \/ s.mode = "lf" /\ Attached(s, k)
  \/ s.mode = "ef" /\ (k = s.sub \/ Under(s, k, s.sub))
  \/ s.mode = "add" /\ s.failed # {} /\ (k = s.sub \/ Under(s, k, s.sub))
  \/ s.mode = "blk" /\ Attached(s, k) /\ (s.failed # {} \/ s.hi[k] <= s.bs \/ s.ab[k] + s.pos[k] >= s.hi[k]
                                               \/ (~IsLeaf(H, k) /\ s.hi[k] <= s.be))
GFree(H, s, e) ==
  LET k == e.n IN
  IF s.ph[k] = 2 \/ k \in s.act \/ ~MayFree(H, s, k) THEN "life" ELSE ""
EFree(H, s, e) == [s EXCEPT !.ph[e.n] = 2]

-----------------------------------------------------------------------------
(* event memory *)
GReg(H, s, e) == IF e.st # 0 THEN "status" ELSE ""
EReg(H, s, e) == [s EXCEPT !.regs = @ \cup {<<e.n, e.r>>}]
GRel(H, s, e, h) ==
  LET k == e.n IN
  IF <<k, e.r>> \notin s.regs THEN "rel"
  ELSE IF h # e.r % 2 THEN "rel"
  ELSE IF s.mode = "mf" THEN (IF k = s.sub THEN "" ELSE "rel")
  ELSE IF Kind(H, k) = 0 THEN (IF s.ph[k] = 2 THEN "" ELSE "rel")
  ELSE IF Kind(H, k) = 6 /\ s.ph[k] # 2 THEN GFree(H, s, e)
  ELSE IF Kind(H, k) = 6 THEN "" ELSE IF MayFree(H, s, k) THEN "" ELSE "rel"
ERel(H, s, e) ==
  LET k == e.n
      t == [s EXCEPT !.regs = @ \ {<<k, e.r>>}] IN
  IF s.mode # "mf" /\ Kind(H, k) = 6 THEN [t EXCEPT !.ph[k] = 2] ELSE t
RegsOf(s, k) == {r \in s.regs : r[1] = k}
\* no memory of a freed event is left
RegsReleased(H, s) == \A r \in s.regs : s.ph[r[1]] # 2

-----------------------------------------------------------------------------
(* block calls *)
EBlk(H, s, e) ==
  LET ab == [n \in Nodes(H) |-> AbsStart(H, s, n)]
      hi == [n \in Nodes(H) |-> AbsEnd(H, s, n)] IN
  [s EXCEPT !.mode = "blk", !.bs = e.s, !.be = e.t, !.bpar = e.par, !.pre = e.pre, !.failed = {},
    !.ab = ab, !.hi = hi, !.need = [n \in Nodes(H) |-> Max2(e.s - ab[n], 0)]]

Covered(H, s, n) == Active(s, n) => s.ab[n] + s.need[n] = WHi(s, n)
\* expected content of the output block, digit d at index i (from 1) of channel index c
Expected(H, s, d, i, c) ==
  IF d = 0 THEN s.pre
  ELSE LET S == {n \in Nodes(H) : Dig(H, n) = d /\ Attached(s, n) /\ ~Hidden(H, s, n, TOP)} IN
       IF S = {} THEN 0 ELSE Contribution(H, s, CHOOSE n \in S : TRUE, s.bs + i - 1, c)

GRet(H, s, e) ==
  IF s.act # {} THEN "life"
  ELSE IF e.st # 0 THEN
    IF e.st \notin s.failed THEN "status"
    ELSE IF e.empty # 1 THEN "fail"
    ELSE IF \E n \in Nodes(H) : Attached(s, n) /\ ~IsFreed(H, s, n) THEN "fail"
    ELSE IF ~RegsReleased(H, s) THEN "rel" ELSE ""
  ELSE IF s.failed # {} THEN "status"
  ELSE IF \E n \in Nodes(H) : Attached(s, n) /\ IsLeaf(H, n) /\ ~Covered(H, s, n) THEN "window"
  ELSE IF \E n \in Nodes(H) : Attached(s, n) /\ IsMap(H, n) /\ ~Covered(H, s, n) THEN "map"
  ELSE IF \E n \in Nodes(H) : Attached(s, n) /\ Expired(H, s, n) /\ ~IsFreed(H, s, n) THEN "life"
  ELSE IF ~RegsReleased(H, s) THEN "rel"
  ELSE IF e.empty = 1 /\ \E n \in Nodes(H) : Attached(s, n) /\ ~IsFreed(H, s, n) THEN "life"
  ELSE IF e.empty = 0 /\ \A n \in Nodes(H) : s.par[n] = TOP => s.hi[n] <= s.bs THEN "life"
  ELSE IF \E c \in 1 .. H.cc : \E d \in 1 .. 7 : \E i \in 1 .. (s.be - s.bs) :
            e.out[c][d][i] # Expected(H, s, d - 1, i, c - 1) THEN "output"
  ELSE ""
\* after a failure the list is empty
ERet(H, s, e) ==
  LET t == [s EXCEPT !.mode = "idle", !.failed = {}] IN
  IF e.st = 0 THEN t
  ELSE [t EXCEPT !.par = [n \in Nodes(H) |-> IF Attached(s, n) THEN NONE ELSE s.par[n]],
                 !.ph = [n \in Nodes(H) |-> IF Attached(s, n) THEN 2 ELSE s.ph[n]]]

ELfB(H, s, e) == [s EXCEPT !.mode = "lf"]
GLfE(H, s, e) ==
  IF e.empty # 1 THEN "life"
  ELSE IF \E n \in Nodes(H) : Attached(s, n) /\ ~IsFreed(H, s, n) THEN "life"
  ELSE IF ~RegsReleased(H, s) THEN "rel" ELSE ""
ELfE(H, s, e) ==
  [s EXCEPT !.mode = "idle", !.par = [n \in Nodes(H) |-> IF Attached(s, n) THEN NONE ELSE s.par[n]],
            !.ph = [n \in Nodes(H) |-> IF Attached(s, n) THEN 2 ELSE s.ph[n]]]
GMfE(H, s, e) == IF RegsOf(s, e.n) # {} THEN "rel" ELSE ""
GEfE(H, s, e) ==
  IF \E n \in Nodes(H) : (n = e.n \/ Under(s, n, e.n)) /\ ~IsFreed(H, s, n) THEN "life"
  ELSE IF ~RegsReleased(H, s) THEN "rel"
  ELSE IF e.null = 0 /\ ~IsLeaf(H, e.n) THEN "life" ELSE ""
(* use of an event without a list: prepared, rendered in parts and freed by the caller *)
EDpB(H, s, e) ==
  LET t == [s EXCEPT !.par[e.n] = TOP, !.st[e.n] = 0, !.en[e.n] = e.t] IN EBlk(H, t, [s |-> 0, t |-> 0, par |-> 0, pre |-> 0])
GDpE(H, s, e) ==
  IF e.st # 0 THEN (IF e.st \in s.failed THEN "" ELSE "status")
  ELSE IF s.failed # {} THEN "status" ELSE IF s.ph[e.n] # 1 THEN "life" ELSE ""
GDret(H, s, e) ==
  IF s.act # {} THEN "life"
  ELSE IF e.st # 0 THEN (IF e.st \in s.failed THEN "" ELSE "status")
  ELSE IF s.failed # {} THEN "status"
  ELSE IF \E n \in Nodes(H) : Attached(s, n) /\ IsLeaf(H, n) /\ ~Covered(H, s, n) THEN "window"
  ELSE IF \E n \in Nodes(H) : Attached(s, n) /\ IsMap(H, n) /\ ~Covered(H, s, n) THEN "map"
  ELSE IF \E n \in Nodes(H) : Attached(s, n) /\ Expired(H, s, n) /\ ~IsFreed(H, s, n) THEN "life"
  ELSE IF ~RegsReleased(H, s) THEN "rel"
  ELSE IF \E c \in 1 .. H.cc : \E d \in 1 .. 7 : \E i \in 1 .. (s.be - s.bs) :
            e.out[c][d][i] # Expected(H, s, d - 1, i, c - 1) THEN "output"
  ELSE ""
GEnd(H, s, e) == IF e.live # 0 THEN "leak" ELSE IF s.mode # "idle" THEN "crash" ELSE IF s.act # {} THEN "life" ELSE IF s.regs # {} THEN "rel" ELSE ""

-----------------------------------------------------------------------------
(* dispatch. lastb is the begin record of the call that is observed *)
Guard(H, s, e, b) ==
  CASE e.e = "addb" -> GAddB(H, s, e)
    [] e.e = "adde" -> IF s.mode # "add" \/ s.sub # e.n THEN "crash" ELSE GAddE(H, s, e, b)
    [] e.e = "wrap" -> ""
    [] e.e = "prep" -> GPrep(H, s, e)
    [] e.e = "gen" -> GGen(H, s, e)
    [] e.e = "gend" -> GGend(H, s, e)
    [] e.e = "map" -> GMap(H, s, e)
    [] e.e = "free" -> GFree(H, s, e)
    [] e.e = "reg" -> GReg(H, s, e)
    [] e.e = "ens" -> IF e.st # 0 THEN "status" ELSE ""
    [] e.e = "rel" -> GRel(H, s, e, IF "h" \in DOMAIN e THEN e.h ELSE 0)
    [] e.e = "sort" -> ""
    [] e.e = "init" -> IF (e.st = 0) # (e.x = 0) THEN "status" ELSE IF e.threads # -1 /\ e.threads # (IF e.x = 0 THEN e.w ELSE 0) THEN "threads" ELSE ""
    [] e.e = "deinit" -> IF s.act # {} THEN "life" ELSE IF e.threads \notin {-1, 0} THEN "threads" ELSE ""
    [] e.e = "blk" -> IF s.mode # "idle" THEN "crash" ELSE ""
    [] e.e = "ret" -> IF s.mode # "blk" THEN "crash" ELSE GRet(H, s, e)
    [] e.e = "lfb" -> ""
    [] e.e = "lfe" -> GLfE(H, s, e)
    [] e.e = "mfb" -> ""
    [] e.e = "mfe" -> GMfE(H, s, e)
    [] e.e = "efb" -> ""
    [] e.e = "efe" -> GEfE(H, s, e)
    [] e.e = "dpb" -> IF s.mode # "idle" \/ s.par[e.n] # NONE THEN "driver" ELSE ""
    [] e.e = "dpe" -> IF s.mode # "blk" THEN "crash" ELSE GDpE(H, s, e)
    [] e.e = "dret" -> IF s.mode # "blk" THEN "crash" ELSE GDret(H, s, e)
    [] e.e = "end" -> GEnd(H, s, e)
    [] e.e = "crash" -> "crash"
    [] e.e = "timeout" -> "stuck"
    [] e.e = "stuck" -> "stuck"
    [] e.e = "race" -> "race"
    [] OTHER -> "driver"
Effect(H, s, e, b) ==
  CASE e.e = "addb" -> EAddB(H, s, e)
    [] e.e = "adde" -> EAddE(H, s, e, b)
    [] e.e = "wrap" -> EWrap(H, s, e)
    [] e.e = "prep" -> EPrep(H, s, e)
    [] e.e = "gen" -> EGen(H, s, e)
    [] e.e = "gend" -> EGend(H, s, e)
    [] e.e = "map" -> EMap(H, s, e)
    [] e.e = "free" -> EFree(H, s, e)
    [] e.e = "reg" -> EReg(H, s, e)
    [] e.e = "rel" -> ERel(H, s, e)
    [] e.e = "blk" -> EBlk(H, s, e)
    [] e.e = "ret" -> ERet(H, s, e)
    [] e.e = "lfb" -> ELfB(H, s, e)
    [] e.e = "lfe" -> ELfE(H, s, e)
    [] e.e = "mfb" -> [s EXCEPT !.mode = "mf", !.sub = e.n]
    [] e.e = "mfe" -> [s EXCEPT !.mode = "idle", !.sub = NONE]
    [] e.e = "efb" -> [s EXCEPT !.mode = "ef", !.sub = e.n]
    [] e.e = "efe" -> [s EXCEPT !.mode = "idle", !.sub = NONE, !.par[e.n] = NONE]
    [] e.e = "dpb" -> EDpB(H, s, e)
    [] e.e \in {"dpe", "dret"} -> [s EXCEPT !.mode = "idle", !.failed = {}]
    [] OTHER -> s
=============================================================================
