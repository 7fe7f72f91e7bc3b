------------------------------- MODULE MC_Render -------------------------------
(* algorithm of rendering a range in blocks to a file. every operation can fail.
   parts: requested parts of the timeline, data: positions in the file *)
EXTENDS Integers, Sequences
CONSTANTS MaxEnd, MaxBlock, Remainder
VARIABLES start, end, block, pc, i, parts, data, ev, open, buf, failed
vars == <<start, end, block, pc, i, parts, data, ev, open, buf, failed>>
Init == start \in 0 .. MaxEnd /\ end \in start .. MaxEnd /\ block \in 1 .. MaxBlock /\ pc = "add" /\ i = 0 /\ parts = <<>> /\ data = <<>> /\ ev = "given" /\ open = FALSE /\ buf = FALSE /\ failed = FALSE
U == UNCHANGED <<start, end, block>>
Full == block * ((end - start) \div block)
Fail == failed' = TRUE /\ pc' = "exit" /\ UNCHANGED <<i, parts, data, ev, open, buf>>
Add == pc = "add" /\ U /\ \/ pc' = "block" /\ ev' = "list" /\ UNCHANGED <<i, parts, data, open, buf, failed>>
                          \/ failed' = TRUE /\ pc' = "exit" /\ ev' = "freed" /\ UNCHANGED <<i, parts, data, open, buf>>
Block == pc = "block" /\ U /\ ((pc' = "open" /\ buf' = TRUE /\ UNCHANGED <<i, parts, data, ev, open, failed>>) \/ Fail)
Open == pc = "open" /\ U /\ ((pc' = "seq" /\ open' = TRUE /\ UNCHANGED <<i, parts, data, ev, buf, failed>>) \/ Fail)
Size == IF i < Full THEN block ELSE IF Remainder THEN (end - start) % block ELSE 0
Seqs == pc = "seq" /\ U /\
  IF Size = 0 THEN pc' = "exit" /\ UNCHANGED <<i, parts, data, ev, open, buf, failed>>
  ELSE \/ parts' = Append(parts, <<start + i, start + i + Size>>) /\ pc' = "write" /\ UNCHANGED <<i, data, ev, open, buf, failed>>
       \/ failed' = TRUE /\ ev' = "freed" /\ pc' = "exit" /\ UNCHANGED <<i, parts, data, open, buf>>
Write == pc = "write" /\ U /\
  \/ data' = data \o [k \in 1 .. Size |-> start + i + k - 1] /\ i' = i + Size /\ pc' = (IF i < Full THEN "seq" ELSE "exit") /\ UNCHANGED <<parts, ev, open, buf, failed>>
  \/ Fail
Exit == pc = "exit" /\ U /\ pc' = "done" /\ ev' = (IF ev = "list" THEN "freed" ELSE IF ev = "freed" THEN "freed" ELSE "lost") /\ open' = FALSE /\ buf' = FALSE /\ UNCHANGED <<i, parts, data, failed>>
Next == Add \/ Block \/ Open \/ Seqs \/ Write \/ Exit
Spec == Init /\ [][Next]_vars
Once == pc = "done" => ev = "freed" /\ ~open /\ ~buf
Range == \A k \in DOMAIN parts : start <= parts[k][1] /\ parts[k][1] < parts[k][2] /\ parts[k][2] <= end /\ (k > 1 => parts[k][1] = parts[k - 1][2])
Result == Len(data) <= end - start /\ \A k \in DOMAIN data : data[k] = start + k - 1
Complete == pc = "done" /\ ~failed => Len(data) = end - start
================================================================================
