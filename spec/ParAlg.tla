------------------------------- MODULE ParAlg -------------------------------
(* parallel rendering (sp_seq_parallel, futures.c, thread-pool.c) as steps of a caller and worker threads.
   Tree[t] lists the events that task t renders in parallel, <<>> for an event that generates samples itself.
   task 1 is the block call of the caller. one action for each critical section of the queue mutex and for each
   access to a finished flag. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W,        \* number of workers
          TreeNo,   \* composition
          MayFail,  \* if events can fail
          Inline,   \* if a wait evaluates a task itself that is still queued
          WaitAll   \* if a failing call waits for all started events before freeing

Trees == << <<<<2, 3>>, <<>>, <<>>>>,
            <<<<2, 3, 4>>, <<>>, <<>>, <<>>>>,
            <<<<2, 3>>, <<4, 5>>, <<>>, <<>>, <<>>>>,
            <<<<2, 3>>, <<4>>, <<5>>, <<>>, <<>>>>,
            <<<<2>>, <<3>>, <<4>>, <<>>>>,
            <<<<2, 3>>, <<4, 5>>, <<6>>, <<>>, <<>>, <<>>>>,
            <<<<2, 6>>, <<3, 4>>, <<>>, <<5>>, <<>>, <<>>>> >>
Tree == Trees[TreeNo]
Tasks == 1 .. Len(Tree)
Threads == 0 .. W            \* 0 is the caller
EXIT == 0                    \* task that ends a worker

VARIABLES queue, fin, runs, status, freed, stack, phase, exited, ret
vars == <<queue, fin, runs, status, freed, stack, phase, exited, ret>>

Frame(t) == [t |-> t, pc |-> "start", i |-> 1, fail |-> FALSE]
Init ==
  /\ queue = <<>> /\ fin = [t \in Tasks |-> FALSE] /\ runs = [t \in Tasks |-> 0] /\ status = [t \in Tasks |-> 0]
  /\ freed = {} /\ stack = [w \in Threads |-> IF w = 0 THEN <<Frame(1)>> ELSE <<>>]
  /\ phase = "render" /\ exited = {} /\ ret = -1

Top(w) == stack[w][Len(stack[w])]
SetTop(w, f) == stack' = [stack EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1) \o <<f>>]
Push(w, f, g) == stack' = [stack EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1) \o <<f, g>>]
Remove(q, t) == SelectSeq(q, LAMBDA x : x # t)
RECURSIVE Below(_)
Below(t) == {t} \cup UNION {Below(Tree[t][i]) : i \in DOMAIN Tree[t]}

\* a worker takes the first task of the queue
Take(w) ==
  /\ w # 0 /\ w \notin exited /\ stack[w] = <<>> /\ queue # <<>>
  /\ queue' = Tail(queue)
  /\ IF Head(queue) = EXIT THEN exited' = exited \cup {w} /\ UNCHANGED stack
     ELSE stack' = [stack EXCEPT ![w] = <<Frame(Head(queue))>>] /\ UNCHANGED exited
  /\ UNCHANGED <<fin, runs, status, freed, phase, ret>>

\* a task starts: leaves generate, groups start to enqueue
Start(w) ==
  /\ stack[w] # <<>> /\ Top(w).pc = "start"
  /\ runs' = [runs EXCEPT ![Top(w).t] = @ + 1]
  /\ SetTop(w, [Top(w) EXCEPT !.pc = IF Tree[Top(w).t] = <<>> THEN "gen" ELSE "enqueue"])
  /\ UNCHANGED <<queue, fin, status, freed, phase, exited, ret>>
Generate(w) ==
  /\ stack[w] # <<>> /\ Top(w).pc = "gen"
  /\ \E r \in {0} \cup (IF MayFail THEN {1} ELSE {}) : status' = [status EXCEPT ![Top(w).t] = r]
  /\ SetTop(w, [Top(w) EXCEPT !.pc = "finish"])
  /\ UNCHANGED <<queue, fin, runs, freed, phase, exited, ret>>
Enqueue(w) ==
  /\ stack[w] # <<>> /\ Top(w).pc = "enqueue"
  /\ LET f == Top(w) IN
     IF f.i > Len(Tree[f.t]) THEN SetTop(w, [f EXCEPT !.pc = "merge", !.i = 1]) /\ UNCHANGED queue
     ELSE queue' = Append(queue, Tree[f.t][f.i]) /\ SetTop(w, [f EXCEPT !.i = @ + 1])
  /\ UNCHANGED <<fin, runs, status, freed, phase, exited, ret>>
\* sph_future_touch of child i: merge uses the result, clean ignores it
Touch(w) ==
  /\ stack[w] # <<>> /\ Top(w).pc \in {"merge", "clean"}
  /\ LET f == Top(w) IN
     IF f.i > Len(Tree[f.t]) THEN
       /\ IF f.pc = "merge" THEN SetTop(w, [f EXCEPT !.pc = "clean", !.i = 1])
          ELSE SetTop(w, [f EXCEPT !.pc = "release"])
       /\ UNCHANGED <<queue, status>>
     ELSE LET c == Tree[f.t][f.i] IN
       IF fin[c] \/ (f.pc = "clean" /\ ~WaitAll) THEN
         /\ IF f.pc = "merge" /\ status[c] # 0 THEN SetTop(w, [f EXCEPT !.pc = "clean", !.i = 1, !.fail = TRUE]) /\ status' = [status EXCEPT ![f.t] = status[c]]
            ELSE SetTop(w, [f EXCEPT !.i = @ + 1]) /\ UNCHANGED status
         /\ UNCHANGED queue
       ELSE IF Inline /\ \E i \in DOMAIN queue : queue[i] = c THEN
         /\ queue' = Remove(queue, c) /\ Push(w, f, Frame(c)) /\ UNCHANGED status
       ELSE UNCHANGED <<stack, queue, status>> /\ FALSE \* poll again later
  /\ UNCHANGED <<fin, runs, freed, phase, exited, ret>>
\* after a failure all events below are freed
Release(w) ==
  /\ stack[w] # <<>> /\ Top(w).pc = "release"
  /\ freed' = IF Top(w).fail THEN freed \cup (Below(Top(w).t) \ {Top(w).t}) ELSE freed
  /\ SetTop(w, [Top(w) EXCEPT !.pc = "finish"])
  /\ UNCHANGED <<queue, fin, runs, status, phase, exited, ret>>
Finish(w) ==
  /\ stack[w] # <<>> /\ Top(w).pc = "finish"
  /\ fin' = [fin EXCEPT ![Top(w).t] = TRUE]
  /\ stack' = [stack EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
  /\ IF Top(w).t = 1 THEN phase' = "returned" /\ ret' = status[1] ELSE UNCHANGED <<phase, ret>>
  /\ UNCHANGED <<queue, runs, status, freed, exited>>
\* sph_future_deinit: one ending task for each worker, then join
Deinit ==
  /\ phase = "returned"
  /\ queue' = queue \o [i \in 1 .. W |-> EXIT] /\ phase' = "joining"
  /\ UNCHANGED <<fin, runs, status, freed, stack, exited, ret>>
Join ==
  /\ phase = "joining" /\ exited = 1 .. W /\ phase' = "done"
  /\ UNCHANGED <<queue, fin, runs, status, freed, stack, exited, ret>>

Step(w) == Take(w) \/ Start(w) \/ Generate(w) \/ Enqueue(w) \/ Touch(w) \/ Release(w) \/ Finish(w)
Next == (\E w \in Threads : Step(w)) \/ Deinit \/ Join
Fairness == \A w \in Threads : WF_vars(Step(w))
Spec == Init /\ [][Next]_vars /\ Fairness /\ WF_vars(Deinit) /\ WF_vars(Join)

RunningOf(w) == {stack[w][i].t : i \in DOMAIN stack[w]}
Once == \A t \in Tasks : runs[t] <= 1
\* nothing that is freed is used
FreedUnused == \A w \in Threads : RunningOf(w) \cap freed = {}
NoQueuedFreed == \A i \in DOMAIN queue : queue[i] \notin freed
\* when the call has returned no worker works on its events
Contained == phase # "render" => \A w \in Threads \ {0} : stack[w] = <<>>
\* success means everything was rendered
Complete == phase = "done" /\ ret = 0 => \A t \in Tasks : runs[t] = 1 /\ status[t] = 0
Reported == phase = "done" /\ (\E t \in Tasks : t # 1 /\ status[t] # 0) => ret # 0
AllFreed == phase = "done" /\ ret # 0 => Tasks \ {1} \subseteq freed
Terminates == <>(phase = "done")
=============================================================================
