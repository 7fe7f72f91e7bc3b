---------------------------------- MODULE Tools ----------------------------------
(* queues, arrays with a used length, registers of memory, allocation helpers, strings and paths, and float sums.
   strings are sequences of byte values without zero *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Slash == 47  Dot == 46
Drop(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Set(q) == {q[k] : k \in DOMAIN q}
RECURSIVE Flat(_), Joined(_, _), Add(_), StripEnd(_), StripName(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Joined(q, d) == IF Len(q) = 1 THEN Head(q) ELSE Head(q) \o d \o Joined(Tail(q), d)
Add(q) == IF q = <<>> THEN 0 ELSE Head(q) + Add(Tail(q))
\* trailing slashes, and the last name, removed
StripEnd(a) == IF a # <<>> /\ a[Len(a)] = Slash THEN StripEnd(SubSeq(a, 1, Len(a) - 1)) ELSE a
StripName(a) == IF a # <<>> /\ a[Len(a)] # Slash THEN StripName(SubSeq(a, 1, Len(a) - 1)) ELSE a
Dirname(a) == LET s == StripEnd(a)  p == StripName(s)  d == StripEnd(p) IN
  IF s = <<>> THEN (IF a = <<>> THEN <<Dot>> ELSE <<Slash>>) ELSE IF p = <<>> THEN <<Dot>> ELSE IF d = <<>> THEN <<Slash>> ELSE d
WithSlash(a) == IF a = <<>> \/ a[Len(a)] = Slash THEN a ELSE Append(a, Slash)
\* directories: a tree as a set of sequences of names, the root is <<>>. files are leaves. paths are sequences of names, -1 is the same and -2 the parent directory
RECURSIVE Ensure(_, _, _, _)
\* creates what is missing from position at, along path. result: <<ok, directories>>
Ensure(dirs, files, at, path) ==
  IF path = <<>> THEN <<TRUE, dirs>>
  ELSE IF at \in files THEN <<FALSE, dirs>>
  ELSE LET x == Head(path)  n == IF x = -1 THEN at ELSE IF x = -2 THEN SubSeq(at, 1, Len(at) - 1) ELSE Append(at, x) IN
       IF n \in files THEN <<Len(path) = 1, dirs>> ELSE Ensure(dirs \cup {n}, files, n, Tail(path))
\* long strings as runs <<character, length>> without equal neighbours
RECURSIVE Glue(_), RFlat(_), RJoined(_, _), RLen(_), RStripEnd(_), RStripName(_), Total(_, _)
Glue(q) == IF Len(q) < 2 THEN SelectSeq(q, LAMBDA x : x[2] > 0)
  ELSE IF q[1][2] = 0 THEN Glue(Tail(q)) ELSE IF q[2][2] = 0 THEN Glue(<<q[1]>> \o SubSeq(q, 3, Len(q)))
  ELSE IF q[1][1] = q[2][1] THEN Glue(<<<<q[1][1], q[1][2] + q[2][2]>>>> \o SubSeq(q, 3, Len(q))) ELSE <<q[1]>> \o Glue(Tail(q))
RFlat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o RFlat(Tail(q))
RJoined(q, d) == IF Len(q) = 1 THEN Head(q) ELSE Head(q) \o d \o RJoined(Tail(q), d)
RLen(q) == IF q = <<>> THEN 0 ELSE Head(q)[2] + RLen(Tail(q))
Init1(q) == SubSeq(q, 1, Len(q) - 1)
RStripEnd(a) == IF a # <<>> /\ a[Len(a)][1] = Slash THEN Init1(a) ELSE a
RStripName(a) == IF a # <<>> /\ a[Len(a)][1] # Slash THEN RStripName(Init1(a)) ELSE a
RDirname(a) == LET s == RStripEnd(a)  p == RStripName(s)  d == RStripEnd(p) IN
  IF s = <<>> THEN (IF a = <<>> THEN <<<<Dot, 1>>>> ELSE <<<<Slash, 1>>>>) ELSE IF p = <<>> THEN <<<<Dot, 1>>>> ELSE IF d = <<>> THEN <<<<Slash, 1>>>> ELSE d
LongString(e) ==
  CASE e.f = 12 -> e.o = Glue(e.a \o e.b) /\ e.new = 1
    [] e.f = 13 -> e.o = e.a /\ e.new = 1
    [] e.f = 14 -> e.o = Glue(RJoined(e.q, e.a)) /\ e.len = RLen(e.o) /\ e.new = 1
    [] e.f = 15 -> (IF e.a = <<>> \/ e.a[Len(e.a)][1] = Slash THEN e.r = 0 /\ e.o = e.a /\ e.new = 0 ELSE e.r = 2 /\ e.new = 1 /\ e.o = e.a \o <<<<Slash, 1>>>>)
    [] e.f = 16 -> e.new = 1 /\ e.same = 1 /\ (e.o = RDirname(e.a) \/ (e.o = <<<<Slash, 2>>>> /\ RDirname(e.a) = <<<<Slash, 1>>>>))
\* sums of the additions (1) and removals (2) of the first k steps
Total(steps, k) == IF k = 0 THEN <<0, 0>> ELSE LET t == Total(steps, k - 1) IN <<t[1] + steps[k][1], t[2] + steps[k][2]>>
\* conformance
Init0(H) == [q |-> <<>>, ids |-> {}, a |-> <<>>, size |-> 0, dirs |-> {<<>>}, files |-> {}]
R(ok, name, s) == [g |-> IF ok THEN "" ELSE name, s |-> s]
\* the list of a queue as found by following the nodes
Queue(s, e, q, ok) == R(ok /\ e.items = q /\ e.size = Len(q) /\ (IF q = <<>> THEN e.last = 0 /\ e.first = 0 ELSE e.last = q[Len(q)] /\ e.first = q[1]), "queue", [s EXCEPT !.q = q])
Arr(s, e, a, size, ok) == R(ok /\ e.used = Len(a) /\ e.size = size /\ e.items = a /\ e.full = (IF Len(a) = size THEN 1 ELSE 0) /\ e.unused = size - Len(a), "array", [s EXCEPT !.a = a, !.size = size])
Observe(H, s, e) ==
  CASE e.e = "enq" -> Queue(s, e, Append(s.q, e.id), TRUE)
    [] e.e = "deq" -> Queue(s, e, Tail(s.q), e.r = Head(s.q))
    [] e.e = "remove" -> (IF e.id \in Set(s.q) THEN Queue(s, e, Drop(s.q, CHOOSE k \in DOMAIN s.q : s.q[k] = e.id), e.r = 1) ELSE Queue(s, e, s.q, e.r = 0))
    [] e.e = "qinit" -> Queue(s, e, <<>>, TRUE)
    [] e.e = "anew" -> (IF e.r # 0 THEN R(e.inj = 1 /\ e.live = 0, "failure", s) ELSE Arr(s, e, <<>>, e.n, e.inj = 0))
    [] e.e = "aadd" -> Arr(s, e, Append(s.a, e.v), s.size, TRUE)
    [] e.e = "aremove" -> Arr(s, e, SubSeq(s.a, 1, Len(s.a) - 1), s.size, TRUE)
    [] e.e = "aclear" -> Arr(s, e, <<>>, s.size, TRUE)
    [] e.e = "aresize" -> (IF e.r # 0 THEN Arr(s, e, s.a, s.size, e.inj = 1) ELSE Arr(s, e, SubSeq(s.a, 1, Min(e.n, Len(s.a))), e.n, e.inj = 0))
    \* everything that was registered is released once with its own handler
    [] e.e = "register" -> R(Len(e.freed) = Len(e.added) /\ Set(e.freed) = Set(e.added) /\ e.index = 0, "register", s)
    [] e.e = "alloc" -> R(IF e.inj = 1 THEN e.st # 0 /\ e.group = 1 /\ e.kept = 1 /\ e.live = e.before ELSE e.st = 0 /\ e.usable = 1 /\ e.live = 1, "alloc", s)
    [] e.e = "append" -> R(IF e.inj = 1 THEN e.null = 1 ELSE e.null = 0 /\ e.o = e.a \o e.b /\ e.new = 1, "string", s)
    [] e.e = "clone" -> R(IF e.inj = 1 THEN e.null = 1 ELSE e.null = 0 /\ e.o = e.a /\ e.new = 1, "string", s)
    [] e.e = "join" -> R(IF e.inj = 1 \/ e.q = <<>> THEN e.null = 1 ELSE e.null = 0 /\ e.o = Joined(e.q, e.d) /\ e.len = Len(e.o) /\ e.new = 1, "string", s)
    [] e.e = "slash" -> R(IF WithSlash(e.a) = e.a THEN e.r = 0 /\ e.new = 0 /\ e.o = e.a ELSE IF e.inj = 1 THEN e.r = 1 ELSE e.r = 2 /\ e.new = 1 /\ e.o = WithSlash(e.a), "slash", s)
    \* two slashes can have a meaning of their own
    [] e.e = "dirname" -> R(IF e.inj = 1 THEN e.null = 1 ELSE e.null = 0 /\ (e.o = Dirname(e.a) \/ (e.o = <<Slash, Slash>> /\ Dirname(e.a) = <<Slash>>)) /\ e.new = 1 /\ e.same = 1, "dirname", s)
    [] e.e = "file" -> R(e.st = 0, "setup", [s EXCEPT !.files = @ \cup {e.path}])
    [] e.e = "ensure" ->
         LET x == Ensure(s.dirs, s.files, <<>>, e.path)  found == Set(e.dirs) IN
         IF e.inj = 1 THEN R(e.r = 0 /\ s.dirs \subseteq found /\ found \subseteq x[2] /\ e.live = 0, "directories", [s EXCEPT !.dirs = found])
         ELSE R(/\ e.r = (IF x[1] THEN 1 ELSE 0) /\ e.modes = 1 /\ e.live = 0
                /\ IF x[1] THEN found = x[2] ELSE s.dirs \subseteq found /\ found \subseteq x[2], "directories", [s EXCEPT !.dirs = found])
    \* numbers are hi * 2^60 + lo. if the large parts cancel out the small ones are not lost
    [] e.e = "sum" -> R(IF Add(e.hi) = 0 THEN e.v = Add(e.lo) ELSE e.big = Add(e.hi), "sum", s)
    [] e.e = "near" -> R(e.r = (IF Abs(e.a - e.b) < e.m THEN 1 ELSE 0), "near", s)
    [] e.e = "nears" -> R(e.r = (IF Len(e.a) = Len(e.b) /\ \A k \in DOMAIN e.a : Abs(e.a[k] - e.b[k]) < e.m THEN 1 ELSE 0), "near", s)
    \* large sizes
    [] e.e = "long" -> R(LongString(e), "string", s)
    [] e.e = "abig" -> (LET used == Min(e.u, e.m) IN R(e.r = 0 /\ e.used1 = used /\ e.used = used + e.w /\ e.size = e.m /\ e.unused = e.m - e.used /\ e.full = (IF e.used = e.m THEN 1 ELSE 0) /\ e.ok = e.used, "array", s))
    [] e.e = "qbig" -> R(/\ \A k \in DOMAIN e.steps : LET t == Total(e.steps, k) IN e.sizes[2 * k - 1] = t[1] - Total(e.steps, k - 1)[2] /\ e.sizes[2 * k] = t[1] - t[2]
                         /\ LET t == Total(e.steps, Len(e.steps))[2] IN e.taken = (IF t = 0 THEN <<>> ELSE <<<<0, t>>>>), "queue", s)
    [] e.e = "rbig" -> (LET other == (e.k + e.m - 1) \div e.m IN R(e.all = 1 /\ e.twice = 0 /\ e.b = other /\ e.a = e.k - other, "register", s))
    [] e.e = "sbig" -> R(/\ Add([k \in DOMAIN e.v |-> e.v[k][1]]) = 0 => e.sum = e.rep * Add([k \in DOMAIN e.v |-> IF e.v[k][1] = 0 THEN e.v[k][2] ELSE 0])
                         /\ e.near = (IF e.at >= 0 /\ Abs(e.d) >= 1 THEN 0 ELSE 1), "sum", s)
    [] e.e = "end" -> R(e.leak = 0, "leak", s)
    [] OTHER -> R(FALSE, "crash", s)
=================================================================================
