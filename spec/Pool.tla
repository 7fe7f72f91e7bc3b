-------------------------------- MODULE Pool --------------------------------
(* observable behaviour of the thread pool and of futures. state: a fifo queue of task numbers (0 ends a worker), for each
   thread what it has taken from the queue but not started, and what it is executing or waiting for.
   taking tasks from the queue and the effect of an enqueue inside its call are internal actions *)
EXTENDS Integers, Sequences, FiniteSets
\* thread 0 is the main thread, 1..W are workers
EXIT == -1
NOTHING == -2

PInit(W) ==
  [ q |-> <<>>, w |-> W,
    pend |-> {},                              \* enqueue calls that have not taken effect: <<task, thread>>
    enq |-> {},                               \* tasks with a finished or running enqueue call
    held |-> [t \in 0 .. W |-> NOTHING],      \* taken from the queue, not started
    stack |-> [t \in 0 .. W |-> <<>>],        \* running tasks <<"run", i>> and waits <<"touch", i>>
    started |-> {}, done |-> {}, discarded |-> {}, exited |-> {},
    exits |-> 0, fin |-> "no", drop |-> FALSE ]

Idle(s, t) == t # 0 /\ t \notin s.exited /\ s.stack[t] = <<>> /\ s.held[t] = NOTHING
Touching(s, t, i) == s.stack[t] # <<>> /\ s.stack[t][Len(s.stack[t])] = <<"touch", i>>
InQ(s, i) == \E k \in DOMAIN s.q : s.q[k] = i
Remove(q, i) == SelectSeq(q, LAMBDA x : x # i)
PopS(s, t) == [s.stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]

\* internal steps
CanEnq(s, p) == p \in s.pend
DoEnq(s, p) == [s EXCEPT !.q = Append(@, p[1]), !.pend = @ \ {p}]
CanTake(s, t) == Idle(s, t) /\ s.q # <<>>
DoTake(s, t) == IF Head(s.q) = EXIT THEN [s EXCEPT !.q = Tail(@), !.exited = @ \cup {t}]
                ELSE [s EXCEPT !.q = Tail(@), !.held[t] = Head(s.q)]
CanSteal(s, t) == /\ s.held[t] = NOTHING /\ s.stack[t] # <<>>
                  /\ LET a == s.stack[t][Len(s.stack[t])] IN a[1] = "touch" /\ InQ(s, a[2])
DoSteal(s, t) == LET i == s.stack[t][Len(s.stack[t])][2] IN [s EXCEPT !.q = Remove(@, i), !.held[t] = i]
\* finish: discard the queue, then enqueue the ending tasks one after the other
CanDrop(s) == s.drop
DoDrop(s) == [s EXCEPT !.discarded = @ \cup ({s.q[k] : k \in DOMAIN s.q} \ {EXIT}), !.q = <<>>, !.drop = FALSE]
CanExit(s) == s.exits > 0 /\ ~s.drop
DoExit(s) == [s EXCEPT !.q = Append(@, EXIT), !.exits = @ - 1]

\* observed steps
EnqB(s, e) == [ok |-> e.i \notin s.enq, s |-> [s EXCEPT !.pend = @ \cup {<<e.i, e.w>>}, !.enq = @ \cup {e.i}]]
EnqE(s, e) == [ok |-> <<e.i, e.w>> \notin s.pend, s |-> s]
Start(s, e) ==
  [ok |-> /\ s.held[e.w] = e.i /\ e.i \notin s.started
          /\ (s.stack[e.w] = <<>> /\ e.w # 0) \/ Touching(s, e.w, e.i),
   s |-> [s EXCEPT !.held[e.w] = NOTHING, !.started = @ \cup {e.i}, !.stack[e.w] = Append(@, <<"run", e.i>>)]]
Fin(s, e) ==
  [ok |-> s.stack[e.w] # <<>> /\ s.stack[e.w][Len(s.stack[e.w])] = <<"run", e.i>>,
   s |-> [s EXCEPT !.done = @ \cup {e.i}, !.stack = PopS(s, e.w)]]
TouchB(s, e) == [ok |-> e.i \in s.enq, s |-> [s EXCEPT !.stack[e.w] = Append(@, <<"touch", e.i>>)]]
\* a wait returns after the function has completed, with its result
TouchE(s, e) == [ok |-> Touching(s, e.w, e.i) /\ e.i \in s.done /\ e.v = e.i * 7 + 3, s |-> [s EXCEPT !.stack = PopS(s, e.w)]]
New(s, e) == [ok |-> e.r = 0 /\ (e.threads = -1 \/ e.threads = e.w), s |-> s]
\* a thread could not be created: an error, and no thread is left. a later attempt starts from the beginning
NewX(s, e) == [ok |-> e.r = 1 /\ (e.threads = -1 \/ e.threads = 0), s |-> s]
\* many threads and tasks: all run once and are complete when waiting for them or finishing returns. more threads than a pool can have are an error
ThreadLimit == 128
Crowd(s, e) == [ok |-> /\ s.fin # "yes" /\ e.threads = 0 /\ e.live = 0
                       /\ IF e.w > ThreadLimit THEN e.r = 1 /\ e.during = 0 ELSE e.r = 0 /\ e.during = e.w /\ e.ran = e.n /\ e.right = e.n, s |-> [s EXCEPT !.fin = "done"]]
FinB(s, e) == [ok |-> s.fin = "no", s |-> [s EXCEPT !.fin = "yes", !.exits = s.w, !.drop = (e.discard = 1)]]
\* without waiting the call returns at once. the second call enqueues ending tasks again
FinN(s, e) == [ok |-> s.exits = 0 /\ ~s.drop, s |-> [s EXCEPT !.exits = s.w]]
FinE(s, e) == [ok |-> /\ e.r = 0 /\ s.exits = 0 /\ s.exited = 1 .. s.w /\ (e.threads = -1 \/ e.threads = 0)
                      /\ s.started = s.done, s |-> [s EXCEPT !.fin = "done"]]
\* nothing is left over except what was discarded or enqueued by tasks after the ending tasks
End(s, e, leakfree) == [ok |-> s.fin = "done" /\ (leakfree => e.live = 0), s |-> s]

Observe(s, e, leakfree) ==
  CASE e.e = "enqb" -> EnqB(s, e) [] e.e = "enqe" -> EnqE(s, e) [] e.e = "start" -> Start(s, e) [] e.e = "fin" -> Fin(s, e)
    [] e.e = "touchb" -> TouchB(s, e) [] e.e = "touche" -> TouchE(s, e) [] e.e = "new" -> New(s, e) [] e.e = "newx" -> NewX(s, e) [] e.e = "crowd" -> Crowd(s, e) [] e.e = "finb" -> FinB(s, e)
    [] e.e = "finn" -> FinN(s, e) [] e.e = "fine" -> FinE(s, e) [] e.e = "end" -> End(s, e, leakfree)
    [] OTHER -> [ok |-> FALSE, s |-> s]

Internals(s) ==
  {DoEnq(s, p) : p \in s.pend}
  \cup {DoTake(s, t) : t \in {t \in 1 .. s.w : CanTake(s, t)}}
  \cup {DoSteal(s, t) : t \in {t \in 0 .. s.w : CanSteal(s, t)}}
  \cup (IF CanDrop(s) THEN {DoDrop(s)} ELSE {}) \cup (IF CanExit(s) THEN {DoExit(s)} ELSE {})
=============================================================================
