------------------------------- MODULE MC_Pool -------------------------------
(* thread-pool.c at the level of its mutex and condition variable: enqueue, worker loop with spurious wakeups, finish.
   checked for lost wakeups, fifo order, one execution for each task and termination *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, N,        \* workers, tasks of the main thread
          Children,    \* tasks that each of the first tasks enqueues
          Signal,      \* TRUE: signal at each enqueue. FALSE: only when the queue was empty (a mutation)
          Discard
VARIABLES q, mutex, waiting, pc, cur, runs, order, mpc, mi, children, exited, dropped
vars == <<q, mutex, waiting, pc, cur, runs, order, mpc, mi, children, exited, dropped>>
Workers == 1 .. W
EXIT == 0
AllTasks == 1 .. (N + Children)
Init ==
  /\ q = <<>> /\ mutex = -1 /\ waiting = {} /\ pc = [w \in Workers |-> "lock"] /\ cur = [w \in Workers |-> EXIT]
  /\ runs = [t \in AllTasks |-> 0] /\ order = <<>> /\ mpc = "lock" /\ mi = 1 /\ children = 0 /\ exited = {} /\ dropped = {}
\* enqueue under the lock and signal one waiting thread
Put(t) ==
  /\ q' = Append(q, t)
  /\ IF waiting # {} /\ (Signal \/ q = <<>>) THEN \E w \in waiting : waiting' = waiting \ {w} ELSE waiting' = waiting

MLock == mpc = "lock" /\ mutex = -1 /\ mutex' = 0 /\ mpc' = "put" /\ UNCHANGED <<q, waiting, pc, cur, runs, order, mi, children, exited, dropped>>
MPut ==
  /\ mpc = "put"
  /\ IF Discard /\ mi = N + 1 /\ dropped = {} THEN
       /\ q' = <<>> /\ dropped' = {-1} \cup {q[k] : k \in DOMAIN q} /\ UNCHANGED <<waiting, order, mi>>
     ELSE /\ Put(IF mi <= N THEN mi ELSE EXIT) /\ mi' = mi + 1 /\ UNCHANGED <<order, dropped>>
  /\ mpc' = "unlock" /\ UNCHANGED <<mutex, pc, cur, runs, children, exited>>
MUnlock ==
  /\ mpc = "unlock" /\ mutex' = -1 /\ mpc' = (IF mi > N + W THEN "join" ELSE "lock")
  /\ UNCHANGED <<q, waiting, pc, cur, runs, order, mi, children, exited, dropped>>
MJoin == mpc = "join" /\ exited = Workers /\ mpc' = "done" /\ UNCHANGED <<q, mutex, waiting, pc, cur, runs, order, mi, children, exited, dropped>>

WLock(w) == pc[w] = "lock" /\ mutex = -1 /\ mutex' = w /\ pc' = [pc EXCEPT ![w] = "check"] /\ UNCHANGED <<q, waiting, cur, runs, order, mpc, mi, children, exited, dropped>>
WCheck(w) ==
  /\ pc[w] = "check"
  /\ IF q # <<>> THEN
       /\ cur' = [cur EXCEPT ![w] = Head(q)] /\ q' = Tail(q) /\ pc' = [pc EXCEPT ![w] = "unlock"]
       /\ order' = (IF Head(q) = EXIT THEN order ELSE Append(order, Head(q)))
       /\ UNCHANGED <<mutex, waiting>>
     ELSE /\ waiting' = waiting \cup {w} /\ mutex' = -1 /\ pc' = [pc EXCEPT ![w] = "waiting"] /\ UNCHANGED <<q, cur, order>>
  /\ UNCHANGED <<runs, mpc, mi, children, exited, dropped>>
\* signalled threads get the mutex again
WWake(w) ==
  /\ pc[w] = "waiting" /\ w \notin waiting /\ mutex = -1 /\ mutex' = w /\ pc' = [pc EXCEPT ![w] = "check"]
  /\ UNCHANGED <<q, waiting, cur, runs, order, mpc, mi, children, exited, dropped>>
WSpurious(w) == pc[w] = "waiting" /\ w \in waiting /\ waiting' = waiting \ {w} /\ UNCHANGED <<q, mutex, pc, cur, runs, order, mpc, mi, children, exited, dropped>>
WUnlock(w) == pc[w] = "unlock" /\ mutex' = -1 /\ pc' = [pc EXCEPT ![w] = "run"] /\ UNCHANGED <<q, waiting, cur, runs, order, mpc, mi, children, exited, dropped>>
WRun(w) ==
  /\ pc[w] = "run"
  /\ IF cur[w] = EXIT THEN exited' = exited \cup {w} /\ pc' = [pc EXCEPT ![w] = "exit"] /\ UNCHANGED <<runs>>
     ELSE /\ runs' = [runs EXCEPT ![cur[w]] = @ + 1] /\ UNCHANGED exited
          /\ pc' = [pc EXCEPT ![w] = IF cur[w] <= N /\ cur[w] <= Children THEN "clock" ELSE "lock"]
  /\ UNCHANGED <<q, mutex, waiting, cur, order, mpc, mi, children, dropped>>
\* a task enqueues another task
CLock(w) == pc[w] = "clock" /\ mutex = -1 /\ mutex' = w /\ pc' = [pc EXCEPT ![w] = "cput"] /\ UNCHANGED <<q, waiting, cur, runs, order, mpc, mi, children, exited, dropped>>
CPut(w) == pc[w] = "cput" /\ Put(N + cur[w]) /\ children' = children + 1 /\ pc' = [pc EXCEPT ![w] = "cunlock"] /\ UNCHANGED <<mutex, cur, runs, order, mpc, mi, exited, dropped>>
CUnlock(w) == pc[w] = "cunlock" /\ mutex' = -1 /\ pc' = [pc EXCEPT ![w] = "lock"] /\ UNCHANGED <<q, waiting, cur, runs, order, mpc, mi, children, exited, dropped>>

WStep(w) == WLock(w) \/ WCheck(w) \/ WWake(w) \/ WUnlock(w) \/ WRun(w) \/ CLock(w) \/ CPut(w) \/ CUnlock(w)
Main == MLock \/ MPut \/ MUnlock \/ MJoin
Next == Main \/ \E w \in Workers : WStep(w) \/ WSpurious(w)
Spec == Init /\ [][Next]_vars /\ SF_vars(MLock) /\ WF_vars(MPut) /\ WF_vars(MUnlock) /\ WF_vars(MJoin)
        /\ \A w \in Workers : SF_vars(WLock(w)) /\ SF_vars(WWake(w)) /\ SF_vars(CLock(w)) /\ WF_vars(WCheck(w) \/ WUnlock(w) \/ WRun(w) \/ CPut(w) \/ CUnlock(w))

Once == \A t \in AllTasks : runs[t] <= 1
\* the tasks of one thread are taken in the order it enqueued them
Fifo == \A i, j \in DOMAIN order : i < j /\ order[i] <= N /\ order[j] <= N => order[i] < order[j]
Executed == mpc = "done" => \A t \in 1 .. N : runs[t] = 1 \/ t \in dropped
Terminates == <>(mpc = "done")
=============================================================================
