------------------------------- MODULE MC_Seq -------------------------------
(* model of the list walk that renders events (sp_seq, sp_group_generate, sp_map_event_generate,
   sp_map_event_isolated_generate), checked exhaustively against the rules of Sequencer for all
   small compositions, divisions into blocks and failing callbacks. every finished history is
   printed as a scenario to be replayed with the library *)
EXTENDS Sequencer, TLC
CONSTANTS SMax, DMax, Shapes, MaxBlock, Fails, Show

VARIABLES H, s, b, lists, stack, bufs, pend, bad, p, fail, blocks, base, phase
vars == <<H, s, b, lists, stack, bufs, pend, bad, p, fail, blocks, base, phase>>

L(k) == [kind |-> k, zdur |-> 0, fw |-> 0, dig |-> 0]
Numbered(nodes) ==
  LET RECURSIVE F(_, _)
      F(i, d) == IF i > Len(nodes) THEN <<>>
                 ELSE IF nodes[i].kind \in {1, 2} THEN <<nodes[i]>> \o F(i + 1, d)
                 ELSE <<[nodes[i] EXCEPT !.dig = d]>> \o F(i + 1, d + 1)
  IN F(1, 1)
Add(g, n, st, t) == [e |-> "addb", g |-> g, n |-> n, s |-> st, t |-> t, app |-> 0]
App(g, n, st, t) == [e |-> "addb", g |-> g, n |-> n, s |-> st, t |-> t, app |-> 1]
Wrap(m, n, st, t) == [e |-> "wrap", g |-> m, n |-> n, s |-> st, t |-> t]

\* compositions: [kinds of nodes 0.., building steps]. s1 d1 s2 d2 s3 are the times
Shape(k, s1, d1, s2, d2, s3) ==
  CASE k = 1 -> [nodes |-> <<L(0), L(0)>>, ops |-> <<Add(-1, 0, s1, s1 + d1), Add(-1, 1, s2, s2 + d2)>>]
    [] k = 2 -> [nodes |-> <<L(1), L(0), L(0), L(0)>>, ops |-> <<Add(0, 1, s1, s1 + d1), Add(0, 2, s2, s2 + d2), Add(-1, 3, s2, s2 + d1), Add(-1, 0, s3, -1)>>]
    [] k = 3 -> [nodes |-> <<L(1), L(1), L(0), L(0)>>, ops |-> <<Add(1, 2, s1, s1 + d1), Add(0, 1, s3, -1), App(0, 3, s2, s2 + d2), Add(-1, 0, s1, -1)>>]
    [] k = 4 -> [nodes |-> <<L(0), L(3), L(0)>>, ops |-> <<Wrap(1, 0, s1, s1 + d1), Add(-1, 1, s1, s1 + d1), Add(-1, 2, s2, s2 + d2)>>]
    [] k = 5 -> [nodes |-> <<L(0), L(4), L(0)>>, ops |-> <<Wrap(1, 0, s1, s1 + d1), Add(-1, 1, s1, s1 + d1), Add(-1, 2, s2, s2 + d2)>>]
    [] k = 6 -> [nodes |-> <<L(1), L(0), L(0), L(4)>>, ops |-> <<Add(0, 1, s1, s1 + d1), Add(0, 2, s2, s2 + d2), Wrap(3, 0, s3, s3 + DMax + 1), Add(-1, 3, s3, s3 + DMax + 1)>>]
    [] k = 7 -> [nodes |-> <<L(1), L(0), L(5), L(0)>>, ops |-> <<Wrap(2, 1, s1, s1 + d1), Add(0, 2, s1, s1 + d1), App(0, 3, 0, d2), Add(-1, 0, s3, -1)>>]
    [] k = 8 -> [nodes |-> <<L(0), L(3), L(4), L(0)>>, ops |-> <<Wrap(1, 0, s1, s1 + d1), Wrap(2, 1, s1, s1 + d1), Add(-1, 2, s1, s1 + d1), Add(-1, 3, s2, s2 + d2)>>]
    [] k = 9 -> [nodes |-> <<L(0), L(0), L(0)>>, ops |-> <<Add(-1, 0, s1, s1 + d1), Add(-1, 1, s2, s2 + d2), Add(-1, 2, s3, s3 + d1)>>]

    \* prepare sets another end
    [] k = 10 -> [nodes |-> <<[L(0) EXCEPT !.zdur = d2], L(0)>>, ops |-> <<Add(-1, 0, s1, s1 + d1), Add(-1, 1, s2, s2 + d2)>>]
    [] k = 11 -> [nodes |-> <<L(1), [L(0) EXCEPT !.zdur = d2], L(0)>>, ops |-> <<Add(0, 1, s1, s1 + d1), Add(0, 2, s2, s2 + d2), Add(-1, 0, s3, -1)>>]

\* descending insertion as in sp_event_list_add
Insert(list, n, st) ==
  LET I == {i \in 1 .. Len(list) : st[list[i]] <= st[n]}
      k == IF I = {} THEN Len(list) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
  IN SubSeq(list, 1, k - 1) \o <<n>> \o SubSeq(list, k, Len(list))
Reverse(q) == [i \in 1 .. Len(q) |-> q[Len(q) + 1 - i]]

RECURSIVE Build(_, _, _, _)
Build(h, ops, t, ls) ==
  IF ops = <<>> THEN [s |-> t, ls |-> ls]
  ELSE LET o == ops[1] IN
    IF o.e = "wrap" THEN Build(h, Tail(ops), EWrap(h, t, o), ls)
    ELSE LET t1 == EAddB(h, t, o)
             t2 == EAddE(h, t1, [e |-> "adde", n |-> o.n, r |-> 0, ge |-> 0], o)
         IN Build(h, Tail(ops), t2, [ls EXCEPT ![o.g] = Insert(@, o.n, t2.st)])

OpInts(o) == IF o.e = "wrap" THEN <<4, o.g, o.n, o.s, o.t>> ELSE <<IF o.app = 1 THEN 3 ELSE 2, o.g, o.n, o.s, o.t>>
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flatten(Tail(q))
NodeInts(h, f) == Flatten([i \in 1 .. Len(h.nodes) |->
  <<1, i - 1, h.nodes[i].kind, h.nodes[i].zdur, IF f.n = i - 1 THEN f.what ELSE 0, IF f.n = i - 1 THEN f.nth ELSE 0, 0, h.nodes[i].dig>>])

NoFail == [n |-> -1, what |-> 0, nth |-> 0]
Init ==
  \E k \in Shapes, s1 \in 0 .. SMax, d1 \in 1 .. DMax, s2 \in 0 .. SMax, d2 \in 1 .. DMax : \E s3 \in 0 .. (IF k \in {1, 4, 5, 8} THEN 0 ELSE 1) :
    LET sh == Shape(k, s1, d1, s2, d2, s3)
        h == [nodes |-> Numbered(sh.nodes), cc |-> 1, par |-> 0]
        r == Build(h, sh.ops, Init0(h), [g \in {-1} \cup Nodes(h) |-> <<>>]) IN
    /\ H = h /\ s = r.s
    /\ lists = [r.ls EXCEPT ![-1] = Reverse(@)]
    /\ \E f \in {NoFail} \cup IF Fails THEN [n : Nodes(h), what : {1}, nth : {1}] \cup [n : {n \in Nodes(h) : ~IsGroup(h, n)}, what : {2}, nth : {1, 2}] ELSE {} : fail = f
    /\ base = [ops |-> sh.ops, last |-> (IF k \in {10, 11} THEN 1 + DMax ELSE 1) + CHOOSE x \in {AbsEnd(h, r.s, n) : n \in Nodes(h)} : \A y \in {AbsEnd(h, r.s, n) : n \in Nodes(h)} : y <= x]
    /\ b = [e |-> ""] /\ stack = <<>> /\ bufs = <<>> /\ pend = <<>> /\ bad = "" /\ p = 0 /\ blocks = <<>> /\ phase = "idle"

Emit(e) == bad' = Guard(H, s, e, b) /\ s' = Effect(H, s, e, b) /\ UNCHANGED <<H, b, fail, base>>
Silent == UNCHANGED <<H, s, b, bad, fail, base>>

Zero(n) == [d \in 1 .. 7 |-> [i \in 1 .. n |-> 0]]
\* add the value of node n for its range a to b at offset off
Write(buf, n, a, e, off) ==
  [buf EXCEPT ![Dig(H, n) + 1] = [i \in DOMAIN @ |-> IF i > off /\ i <= off + (e - a) THEN @[i] + (a + i - off) ELSE @[i]]]
Mix(buf, inner, n, off) ==
  [d \in 1 .. 7 |-> [i \in DOMAIN buf[d] |-> IF i > off /\ i <= off + n THEN buf[d][i] + inner[d][i - off] ELSE buf[d][i]]]
Part(buf, off, n) == [d \in 1 .. 7 |-> [i \in 1 .. n |-> buf[d][off + i]]]

\* all leaves below n that are not freed, as free steps
RECURSIVE FreeSteps(_)
FreeSteps(S) == IF S = {} THEN <<>> ELSE LET n == CHOOSE x \in S : TRUE IN <<[e |-> "free", n |-> n]>> \o FreeSteps(S \ {n})
LeavesOf(n) == {k \in Nodes(H) : IsLeaf(H, k) /\ s.ph[k] # 2 /\ (k = n \/ Under(s, k, n))}

FailStatus(n, what) == IF fail.n = n /\ fail.what = what THEN 100 * what + n ELSE 0
GenFails(n, count) == fail.n = n /\ fail.what = 2 /\ fail.nth = count
Abort(st) == /\ stack' = <<>> /\ phase' = "abort"
             /\ pend' = FreeSteps({k \in Nodes(H) : IsLeaf(H, k) /\ s.ph[k] # 2 /\ Attached(s, k)}) \o <<[e |-> "ret", st |-> st, empty |-> 1, out |-> <<>>]>>
             /\ lists' = [g \in DOMAIN lists |-> <<>>]

TopF == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
SetTop(f) == Pop \o <<f>>
TopB == bufs[Len(bufs)]
SetB(x) == SubSeq(bufs, 1, Len(bufs) - 1) \o <<x>>

\* number of times a node has been called is kept in pos: with nth 2 the second block call fails
CallCount(n) == IF s.pos[n] = 0 THEN 1 ELSE 2

StartBlock ==
  /\ phase = "idle" /\ pend = <<>> /\ stack = <<>> /\ p < base.last
  /\ \E n \in 1 .. MaxBlock :
       /\ Emit([e |-> "blk", s |-> p, t |-> p + n, par |-> 0, pre |-> 0])
       /\ stack' = <<[t |-> "list", o |-> -1, i |-> 1, s |-> p, e |-> p + n, off |-> 0]>>
       /\ bufs' = <<Zero(n)>> /\ blocks' = Append(blocks, <<p, p + n>>) /\ p' = p + n /\ phase' = "run"
       /\ UNCHANGED <<lists, pend>>

FreeStep ==
  /\ pend # <<>>
  /\ Emit(Head(pend))
  /\ pend' = Tail(pend)
  /\ phase' = IF Head(pend).e = "ret" THEN (IF Head(pend).st = 0 THEN "idle" ELSE "failed") ELSE IF Head(pend).e = "lfe" THEN "done" ELSE phase
  /\ UNCHANGED <<lists, stack, bufs, p, blocks>>

ListStep ==
  /\ pend = <<>> /\ stack # <<>> /\ TopF.t = "list"
  /\ LET f == TopF
         q == lists[f.o] IN
     IF f.i > Len(q) \/ (s.en[q[f.i]] > f.s /\ f.e <= s.st[q[f.i]]) THEN
       /\ stack' = Pop /\ Silent
       /\ IF Len(stack) = 1 THEN
            /\ pend' = <<[e |-> "ret", st |-> 0, empty |-> IF lists[-1] = <<>> THEN 1 ELSE 0, out |-> <<bufs[1]>>]>>
            /\ UNCHANGED <<lists, bufs, p, blocks, phase>>
          ELSE UNCHANGED <<lists, bufs, pend, p, blocks, phase>>
     ELSE LET n == q[f.i] IN
       IF s.en[n] <= f.s THEN \* past event
         /\ pend' = FreeSteps(LeavesOf(n))
         /\ lists' = [lists EXCEPT ![f.o] = SubSeq(@, 1, f.i - 1) \o SubSeq(@, f.i + 1, Len(@))]
         /\ Silent /\ UNCHANGED <<stack, bufs, p, blocks, phase>>
       ELSE
         /\ stack' = SetTop([f EXCEPT !.i = @ + 1]) \o
              <<[t |-> "call", n |-> n, a |-> Max2(f.s - s.st[n], 0), b |-> Min2(f.e, s.en[n]) - s.st[n], off |-> f.off + Max2(s.st[n] - f.s, 0), lim |-> f.e]>>
         /\ Silent /\ UNCHANGED <<lists, bufs, pend, p, blocks, phase>>

CallStep ==
  /\ pend = <<>> /\ stack # <<>> /\ TopF.t = "call"
  /\ LET f == TopF
         n == f.n
         Prep == /\ Emit([e |-> "prep", n |-> n, r |-> FailStatus(n, 1)])
                 /\ IF FailStatus(n, 1) # 0 THEN Abort(FailStatus(n, 1)) /\ UNCHANGED <<bufs, p, blocks>>
                    ELSE /\ lists' = IF IsGroup(H, n) THEN [lists EXCEPT ![n] = Reverse(@)] ELSE lists
                         \* the range depends on the end that has been set
                         /\ stack' = IF H.nodes[n + 1].zdur > 0 /\ f.lim >= 0 THEN SetTop([f EXCEPT !.b = Min2(f.lim, s'.en[n]) - s.st[n]]) ELSE stack
                         /\ UNCHANGED <<bufs, pend, p, blocks, phase>> IN
     IF s.ph[n] = 0 THEN Prep
     ELSE IF IsGroup(H, n) THEN
       /\ stack' = SetTop([t |-> "list", o |-> n, i |-> 1, s |-> f.a, e |-> f.b, off |-> f.off])
       /\ Silent /\ UNCHANGED <<lists, bufs, pend, p, blocks, phase>>
     ELSE IF IsMap(H, n) THEN
       LET w == CHOOSE k \in Nodes(H) : s.par[k] = n IN
       IF Kind(H, n) = 3 THEN
         /\ stack' = SetTop([f EXCEPT !.t = "map"]) \o <<[f EXCEPT !.n = w, !.lim = -1]>>
         /\ Silent /\ UNCHANGED <<lists, bufs, pend, p, blocks, phase>>
       ELSE
         /\ stack' = SetTop([f EXCEPT !.t = "map"]) \o <<[f EXCEPT !.n = w, !.off = 0, !.lim = -1]>>
         /\ bufs' = Append(bufs, Zero(Len(TopB[1]) - f.off))
         /\ Silent /\ UNCHANGED <<lists, pend, p, blocks, phase>>
     ELSE LET r == IF GenFails(n, CallCount(n)) THEN 200 + n ELSE 0 IN
       /\ Emit([e |-> "gen", n |-> n, a |-> f.a, b |-> f.b, c |-> 1, r |-> r])
       /\ IF r # 0 THEN Abort(r) /\ UNCHANGED <<bufs, p, blocks>>
          ELSE stack' = Pop /\ bufs' = SetB(Write(TopB, n, f.a, f.b, f.off)) /\ UNCHANGED <<lists, pend, p, blocks, phase>>

MapStep ==
  /\ pend = <<>> /\ stack # <<>> /\ TopF.t = "map"
  /\ LET f == TopF
         n == f.n
         iso == Kind(H, n) # 3
         r == IF GenFails(n, CallCount(n)) THEN 200 + n ELSE 0
         in == IF iso THEN Part(TopB, 0, f.b - f.a) ELSE Part(TopB, f.off, f.b - f.a)
         rest == IF iso THEN Part(TopB, f.b - f.a, Len(TopB[1]) - (f.b - f.a)) ELSE Zero(0)
         outb == IF iso THEN bufs[Len(bufs) - 1] ELSE TopB
         mixed == IF Kind(H, n) = 4 THEN Mix(outb, TopB, f.b - f.a, f.off) ELSE outb
         written == Write(mixed, n, f.a, f.b, f.off) IN
     /\ Emit([e |-> "map", n |-> n, a |-> f.a, b |-> f.b, c |-> 1, r |-> r, same |-> IF iso THEN 0 ELSE 1,
              rest |-> IF \A d \in 1 .. 7 : \A i \in DOMAIN rest[d] : rest[d][i] = 0 THEN 1 ELSE 0, in |-> <<in>>])
     /\ IF r # 0 THEN Abort(r) /\ UNCHANGED <<bufs, p, blocks>>
        ELSE /\ stack' = Pop
             /\ bufs' = IF iso THEN SubSeq(bufs, 1, Len(bufs) - 2) \o <<written>> ELSE SetB(written)
             /\ UNCHANGED <<lists, pend, p, blocks, phase>>

\* when everything is rendered or a block call failed the list is freed
Finish ==
  /\ pend = <<>> /\ stack = <<>> /\ (phase = "failed" \/ (phase = "idle" /\ p >= base.last))
  /\ Emit([e |-> "lfb"])
  /\ pend' = FreeSteps({k \in Nodes(H) : IsLeaf(H, k) /\ s.ph[k] # 2 /\ Attached(s, k)}) \o <<[e |-> "lfe", empty |-> 1]>>
  /\ phase' = "freeing" /\ UNCHANGED <<lists, stack, bufs, p, blocks>>

Next == StartBlock \/ FreeStep \/ ListStep \/ CallStep \/ MapStep \/ Finish
Spec == Init /\ [][Next]_vars

\* no step of the algorithm breaks a rule
Correct == bad = ""
\* every history comes to an end
Ends == phase = "done" \/ ENABLED Next
Scenario == <<"SCN", <<0, 0, 0, 0, 1>> \o NodeInts(H, fail) \o Flatten([i \in 1 .. Len(base.ops) |-> OpInts(base.ops[i])]) \o <<9>>
  \o Flatten([i \in 1 .. Len(blocks) |-> <<10, blocks[i][1], blocks[i][2], 0, 0>>]) \o <<11>>, [i \in 1 .. Len(H.nodes) |-> <<H.nodes[i].kind, H.nodes[i].dig, H.nodes[i].zdur>>]>>
Printed == (Show /\ phase = "done") => PrintT(ToString(Scenario))
=============================================================================
