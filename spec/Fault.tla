---- MODULE Fault ----
(* A library call while one of the operations it depends on fails: allocations and file operations are steps that either succeed or
   fail, and after the call the caller releases what it owns, as documented. The events of a run are

   try n     - a new attempt in which operation n of the call fails (n = 0: none)
   a p, f p  - memory p allocated, released        o, c - file handle opened, closed
   x         - an operation failed
   ret       - status and digest of the result     again - the same call repeated without failures
   rel       - the caller released everything it owns

   The digest of the first attempt (no failures) is the reference for all following ones. *)
EXTENDS Naturals, Sequences, FiniteSets

Start == [mode |-> "idle", n |-> 0, heap |-> {}, open |-> 0, failed |-> FALSE, ref |-> <<>>, known |-> FALSE, hit |-> FALSE, done |-> FALSE]

Try(s, n) == [g |-> IF s.mode # "idle" \/ s.done \/ (s.known /\ n # s.n + 1) \/ (~s.known /\ n # 0) THEN "driver" ELSE "",
              s |-> [s EXCEPT !.mode = "call", !.n = n, !.failed = FALSE]]
Alloc(s, p) == [g |-> IF s.mode = "idle" THEN "driver" ELSE IF p \in s.heap THEN "driver" ELSE "", s |-> [s EXCEPT !.heap = @ \cup {p}]]
Free(s, p) == [g |-> IF p \notin s.heap THEN "release" ELSE "", s |-> [s EXCEPT !.heap = @ \ {p}]]
OpenFile(s) == [g |-> "", s |-> [s EXCEPT !.open = @ + 1]]
CloseFile(s) == [g |-> IF s.open = 0 THEN "release" ELSE "", s |-> [s EXCEPT !.open = IF @ = 0 THEN 0 ELSE @ - 1]]
Fail(s) == [g |-> IF s.failed \/ s.n = 0 \/ s.mode # "call" THEN "driver" ELSE "", s |-> [s EXCEPT !.failed = TRUE, !.hit = TRUE]]
Return(s, r, d) ==
  [g |-> IF s.mode # "call" THEN "driver"
         ELSE IF s.failed /\ r = 0 THEN "unreported"
         ELSE IF ~s.failed /\ r # 0 THEN "spurious"
         ELSE IF ~s.failed /\ s.known /\ d # s.ref THEN "result" ELSE "",
   s |-> [s EXCEPT !.mode = IF r = 0 THEN "own" ELSE "failed", !.ref = IF s.known THEN @ ELSE d, !.known = TRUE]]
Again(s, r, d) ==
  [g |-> IF s.mode # "failed" THEN "driver" ELSE IF r # 0 \/ d # s.ref THEN "retry" ELSE "", s |-> [s EXCEPT !.mode = "own"]]
End(s) ==
  [g |-> IF s.mode # "own" THEN "driver" ELSE IF s.heap # {} \/ s.open # 0 THEN "leak" ELSE "",
   s |-> [s EXCEPT !.mode = "idle", !.done = s.n > 0 /\ ~s.failed]]
(* all operations have been reached *)
Done(s) == [g |-> IF ~s.done \/ s.mode # "idle" THEN "driver" ELSE "", s |-> s]

Init0(H) == Start
Observe(H, s, e) ==
  CASE e.e = "try" -> Try(s, e.n)
    [] e.e = "a" -> Alloc(s, e.p)
    [] e.e = "f" -> Free(s, e.p)
    [] e.e = "o" -> OpenFile(s)
    [] e.e = "c" -> CloseFile(s)
    [] e.e = "x" -> Fail(s)
    [] e.e = "ret" -> Return(s, e.r, e.d)
    [] e.e = "again" -> Again(s, e.r, e.d)
    [] e.e = "rel" -> End(s)
    [] e.e = "end" -> Done(s)
    [] e.e = "crash" -> [g |-> "crash", s |-> s]
    [] e.e = "timeout" -> [g |-> "hang", s |-> s]
    [] OTHER -> [g |-> "driver", s |-> s]
====
