------------------------------ MODULE MC_Order ------------------------------
(* sequential rendering adds each event's value to the output, parallel rendering computes each event in a block of its own, in any order, and merges the blocks
   up to the first one that failed. With merging in the order of the list both give the same value and the same status.
   MERGE chooses the order of merging: "list", "completion" or "reverse". With FAIL, events may fail and all values are the same *)
EXTENDS Order, FiniteSets
CONSTANTS N, MERGE, FAIL
VARIABLES evs, done, out, merged, st
vars == <<evs, done, out, merged, st>>
Vals == IF FAIL THEN {<<0, 1>>} ELSE {<<0, 1>>, <<0, -3>>, <<1, 0>>, <<-1, 0>>}
Init == /\ \E n \in 1 .. N : \E f \in [1 .. n -> Vals \X {0, 1} \X (IF FAIL THEN BOOLEAN ELSE {FALSE})] :
             evs = [k \in 1 .. n |-> [s |-> f[k][2], d |-> 2, h |-> f[k][1][1], l |-> f[k][1][2], f |-> IF f[k][3] THEN k ELSE 0]]
        /\ done = <<>> /\ out = <<0, 0>> /\ merged = 0 /\ st = 0
At == Ordered(evs, Covering(evs, 1))
Work == \E k \in {At[x] : x \in DOMAIN At} \ {done[x] : x \in DOMAIN done} : done' = Append(done, k) /\ UNCHANGED <<evs, out, merged, st>>
Target == IF MERGE = "list" THEN At[merged + 1] ELSE IF MERGE = "reverse" THEN At[Len(At) - merged] ELSE done[merged + 1]
Merge == /\ st = 0 /\ merged < Len(At) /\ (MERGE = "completion" => merged < Len(done)) /\ Target \in {done[x] : x \in DOMAIN done}
         /\ IF evs[Target].f # 0 THEN st' = evs[Target].f /\ UNCHANGED <<out, merged>>
            ELSE out' = Plus(out, <<evs[Target].h, evs[Target].l>>) /\ merged' = merged + 1 /\ UNCHANGED st
         /\ UNCHANGED <<evs, done>>
Next == Work \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Same == merged = Len(At) => out = Value(evs, 1)
Reported == /\ st # 0 => st = Status(evs, 1, 2)
            /\ merged = Len(At) => Status(evs, 1, 2) = 0
End == <>(merged = Len(At) \/ st # 0)
=============================================================================
