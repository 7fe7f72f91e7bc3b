--------------------------------- MODULE Blocks ---------------------------------
(* sample blocks that share memory, lists of events, and the division of a time range into parts.
   heap: arrays of samples by the number of the block they were allocated for. a view is a block value: which arrays, from where, how many *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a, b) == IF a < b THEN a ELSE b
Rev(q) == [k \in DOMAIN q |-> q[Len(q) + 1 - k]]
None == [x \in {} |-> 0]
\* blocks. state: heap (function from number to channels) and views (function from number to view)
View(h, off, size, ch) == [h |-> h, off |-> off, size |-> size, ch |-> ch]
Zeros(ch, size) == [c \in 1 .. ch |-> [k \in 1 .. size |-> 0]]
\* heap after writing f(channel, position) to all positions of a view
Write(heap, v, f(_, _)) ==
  IF v.size = 0 \/ v.ch = 0 THEN heap ELSE
  [heap EXCEPT ![v.h] = [c \in DOMAIN @ |-> [k \in DOMAIN @[c] |-> IF c <= v.ch /\ k > v.off /\ k <= v.off + v.size THEN f(c, k - v.off) ELSE @[c][k]]]]
Get(heap, v, c, k) == heap[v.h][c][k + v.off]
New(s, v, ch, size) == [s EXCEPT !.heap = (v :> Zeros(ch, size)) @@ @, !.views = (v :> View(v, 0, size, ch)) @@ @]
Fill(s, v, base) == [s EXCEPT !.heap = Write(@, s.views[v], LAMBDA c, k : base + 100 * c + k)]
Zero(s, v) == [s EXCEPT !.heap = Write(@, s.views[v], LAMBDA c, k : 0)]
\* only as many channels and samples as a has
Copy(s, a, b) == LET x == s.views[a] IN [s EXCEPT !.heap = Write(@, [s.views[b] EXCEPT !.size = x.size, !.ch = x.ch], LAMBDA c, k : Get(s.heap, x, c, k))]
Offset(s, v, u, o) == LET x == s.views[u] IN [s EXCEPT !.views = (v :> View(x.h, x.off + o, x.size - o, x.ch)) @@ @]
Keys(f, P(_)) == {k \in DOMAIN f : P(k)}
\* frees the arrays. views of them are not used anymore
Free(s, v) == LET h == s.views[v].h IN
  [s EXCEPT !.heap = [k \in DOMAIN @ \ {h} |-> @[k]], !.views = LET vs == @ IN [k \in Keys(vs, LAMBDA j : vs[j].h # h) |-> vs[k]]]
\* event lists: sequences of <<id, start>>
Sorted(q) == \A k \in 1 .. Len(q) - 1 : q[k][2] >= q[k + 1][2]
Drop(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
\* q with the event inserted, sorted descending. events with equal start can be in any order
Inserted(q, e, r) == Len(r) = Len(q) + 1 /\ Sorted(r) /\ \E k \in DOMAIN r : r[k] = e /\ Drop(r, k) = q
\* parts of a duration: <<duration, offset>>
(* runs of equally long parts, of the first n: <<how many, duration, offset of the first>> *)
Runs(d, res, n) == LET full == Min(n, d \div res) IN (IF full > 0 THEN <<<<full, res, 0>>>> ELSE <<>>) \o (IF n > full THEN <<<<1, d % res, full * res>>>> ELSE <<>>)
RECURSIVE Parts(_, _, _)
Parts(d, res, from) == IF from >= d THEN <<>> ELSE <<<<Min(res, d - from), from>>>> \o Parts(d, res, from + Min(res, d - from))
Convolution(a, b) == [n \in 1 .. Len(a) + Len(b) - 1 |-> LET S[i \in 0 .. Len(a)] == IF i = 0 THEN 0 ELSE S[i - 1] + (IF n - i + 1 \in 1 .. Len(b) THEN a[i] * b[n - i + 1] ELSE 0) IN S[Len(a)]]
\* links of a list that starts at 1: whether following next reaches the end and each element has the one before it as previous
RECURSIVE Linked(_, _, _, _)
Linked(next, prev, at, last) == at = 0 \/ (prev[at] = last /\ Linked(next, prev, next[at], at))
\* previous, self and next of each element with start
Rows(q) == [k \in DOMAIN q |-> <<IF k = 1 THEN 0 ELSE q[k - 1][1], q[k][1], IF k = Len(q) THEN 0 ELSE q[k + 1][1], q[k][2]>>]
\* conformance
Init0(H) == [heap |-> None, views |-> None, list |-> [x \in 0 .. 2 |-> <<>>], up |-> [x \in 0 .. 2 |-> 0]]
Rule(ok, name, s) == [g |-> IF ok THEN "" ELSE name, s |-> s]
\* the whole observable state after an operation
HeapIs(s, e) == /\ {x[1] : x \in {e.heap[k] : k \in DOMAIN e.heap}} = DOMAIN s.heap /\ \A k \in DOMAIN e.heap : s.heap[e.heap[k][1]] = e.heap[k][2]
                /\ {x[1] : x \in {e.views[k] : k \in DOMAIN e.views}} = DOMAIN s.views
                /\ \A k \in DOMAIN e.views : LET x == e.views[k]  v == s.views[x[1]] IN x[2] = v.h /\ (v.size = 0 \/ v.ch = 0 \/ x[3] = v.off) /\ x[4] = v.size /\ x[5] = v.ch
Observe(H, s, e) ==
  CASE e.e = "new" -> IF e.st # 0 THEN Rule(e.inj = 1 /\ e.leak = 0, "failure", s) ELSE LET n == New(s, e.v, e.ch, e.size) IN Rule(e.inj = 0 /\ HeapIs(n, e), "new", n)
    [] e.e = "fill" -> LET n == Fill(s, e.v, e.base) IN Rule(HeapIs(n, e), "fill", n)
    [] e.e = "zero" -> LET n == Zero(s, e.v) IN Rule(HeapIs(n, e), "zero", n)
    [] e.e = "copy" -> LET n == Copy(s, e.a, e.b) IN Rule(HeapIs(n, e), "copy", n)
    [] e.e = "offset" -> LET n == Offset(s, e.v, e.u, e.o) IN Rule(HeapIs(n, e), "offset", n)
    [] e.e = "free" -> LET n == Free(s, e.v) IN Rule(HeapIs(n, e) /\ e.live = 0, "free", n)
    \* lists. fwd and bwd: following next from the first and previous from the last
    [] e.e = "list" ->
         LET q == s.list[e.x]  r == e.fwd  n == [s EXCEPT !.list[e.x] = r] IN
         IF e.bwd # Rev(r) \/ e.first # 0 THEN Rule(FALSE, "links", s)
         ELSE (CASE e.op = "add" -> IF e.st # 0 THEN Rule(e.inj = 1 /\ r = q /\ e.freed = <<>> /\ e.live = Len(q), "failure", n)
                                   ELSE Rule(e.inj = 0 /\ Inserted(q, <<e.id, e.start>>, r) /\ e.freed = <<>> /\ e.live = Len(r), "add", n)
                [] e.op = "reverse" -> Rule(r = Rev(q) /\ e.freed = <<>>, "reverse", n)
                [] e.op = "remove" -> Rule(r = Drop(q, e.k) /\ e.freed = <<q[e.k][1]>> /\ e.live = Len(r), "remove", n)
                [] e.op = "free" -> Rule(r = <<>> /\ Len(e.freed) = Len(q) /\ {e.freed[k] : k \in DOMAIN e.freed} = {q[k][1] : k \in DOMAIN q} /\ e.live = 0, "release", n))
    [] e.e = "valid" -> Rule(IF e.next = <<>> \/ Linked(e.next, e.prev, 1, 0) THEN e.r = 0 ELSE e.r = 1, "validate", s)
    [] e.e = "display" -> Rule(e.r = 0 /\ e.bad = 0 /\ [k \in DOMAIN e.rows |-> SubSeq(e.rows[k], 1, 4)] = Rows(s.list[e.x]), "display", s)
    [] e.e = "parts" ->
         LET p == Parts(e.end - e.start, e.res, 0)  want == IF e.fail > 0 /\ e.fail <= Len(p) THEN SubSeq(p, 1, e.fail) ELSE p IN
         Rule(/\ e.st = (IF e.fail > 0 /\ e.fail <= Len(p) THEN e.code ELSE 0) /\ e.same = 1
              /\ e.calls = [k \in DOMAIN want |-> <<want[k][1], want[k][2], want[k][2] + e.start>>], "parts", s)
    [] e.e = "runs" ->
         LET d == e.end - e.start  res == Min(e.res, d)  n == (d \div res) + (IF d % res > 0 THEN 1 ELSE 0)  failing == e.fail > 0 /\ e.fail <= n IN
         Rule(/\ e.st = (IF failing THEN e.code ELSE 0) /\ e.same = 1
              /\ e.runs = [k \in DOMAIN Runs(d, res, IF failing THEN e.fail ELSE n) |-> LET g == Runs(d, res, IF failing THEN e.fail ELSE n)[k] IN <<g[1], g[2], g[3], g[3] + e.start>>], "parts", s)
    [] e.e = "schedule" -> Rule(e.to = <<e.from[1] + e.onset, e.from[2] + e.onset + e.duration, IF e.config = 0 THEN e.from[3] ELSE e.config>> /\ e.same = 1, "schedule", s)
    [] e.e = "convolved" -> Rule(e.o = Convolution(e.a, e.b), "convolution", s)
    [] e.e = "end" -> Rule(e.leak = 0, "leak", s)
    [] OTHER -> Rule(FALSE, "crash", s)
================================================================================
