---- MODULE MC_Fault ----
(* The protocol by which the library's functions acquire resources, for all programs up to a length, checked against the rules of Fault.
   Instructions:  T temporary memory, registered for release (memreg)      O memory for the result of the call
                  A memory attached to an object of the caller (event memory, list entry, filter state)
                  F file handle, held for the duration of the call
   Each may fail. On failure the call releases T, O and F and returns a failure, the object keeps what has been attached completely.
   On success T and F are released and O is handed over. The caller releases the result and the object.
   Defect selects a deviation, to see that the rules react to it. *)
EXTENDS Fault
CONSTANTS MaxLen, Defect
VARIABLES prog, pc, phase, temps, outs, object, next, files, f, bad, attempt, status
vars == <<prog, pc, phase, temps, outs, object, next, files, f, bad, attempt, status>>
Programs == UNION {[1 .. n -> {"T", "O", "A", "F"}] : n \in 1 .. MaxLen}
Emit(o) == f' = o.s /\ bad' = (IF bad = "" THEN o.g ELSE bad)
Digest(p) == <<Len(p), Cardinality({k \in DOMAIN p : p[k] = "O"})>>

Init == prog \in Programs /\ pc = 0 /\ phase = "begin" /\ temps = {} /\ outs = {} /\ object = {} /\ next = 1 /\ files = 0 /\ f = Start /\ bad = "" /\ attempt = 0 /\ status = 0
Begin == phase = "begin" /\ Emit(Try(f, attempt)) /\ phase' = "call" /\ pc' = 1 /\ status' = 0 /\ UNCHANGED <<prog, temps, outs, object, next, files, attempt>>
Again2 == phase = "again" /\ phase' = "call2" /\ pc' = 1 /\ status' = 0 /\ UNCHANGED <<prog, temps, outs, object, next, f, bad, files, attempt>>
Calling == phase \in {"call", "call2"} /\ pc <= Len(prog) /\ status = 0
Acquire == Calling /\ ~(phase = "call" /\ pc = attempt) /\
  CASE prog[pc] = "T" -> Emit(Alloc(f, next)) /\ temps' = temps \cup {next} /\ next' = next + 1 /\ pc' = pc + 1 /\ UNCHANGED <<prog, phase, outs, object, files, attempt, status>>
    [] prog[pc] = "O" -> Emit(Alloc(f, next)) /\ outs' = outs \cup {next} /\ next' = next + 1 /\ pc' = pc + 1 /\ UNCHANGED <<prog, phase, temps, object, files, attempt, status>>
    [] prog[pc] = "A" -> Emit(Alloc(f, next)) /\ object' = object \cup {next} /\ next' = next + 1 /\ pc' = pc + 1 /\ UNCHANGED <<prog, phase, temps, outs, files, attempt, status>>
    [] prog[pc] = "F" -> Emit(OpenFile(f)) /\ files' = files + 1 /\ pc' = pc + 1 /\ UNCHANGED <<prog, phase, temps, outs, object, next, attempt, status>>
Failing == Calling /\ phase = "call" /\ pc = attempt /\ Emit(Fail(f)) /\ status' = 1 /\
  UNCHANGED <<prog, pc, phase, temps, outs, object, next, files, attempt>>
(* release in any order *)
Releasing == phase \in {"call", "call2"} /\ (status = 1 \/ pc > Len(prog))
Rel == IF status = 1 THEN (IF Defect = "keeptemps" THEN {} ELSE temps) \cup (IF Defect = "keepouts" THEN {} ELSE outs) ELSE temps
Release == Releasing /\ \E p \in Rel : Emit(Free(f, p)) /\ temps' = temps \ {p} /\ outs' = outs \ {p} /\ UNCHANGED <<prog, pc, phase, object, next, files, attempt, status>>
(* a defect: also releases what the object owns *)
Steal == Releasing /\ status = 1 /\ Defect = "steal" /\ \E p \in object : p \in f.heap /\ Emit(Free(f, p)) /\ UNCHANGED <<prog, pc, phase, temps, outs, object, next, files, attempt, status>>
Close == Releasing /\ Rel = {} /\ files > 0 /\ ~(Defect = "keepfiles" /\ status = 1) /\ Emit(CloseFile(f)) /\ files' = files - 1 /\ UNCHANGED <<prog, pc, phase, temps, outs, object, next, attempt, status>>
Ret == Releasing /\ Rel = {} /\ (files = 0 \/ (Defect = "keepfiles" /\ status = 1)) /\
  LET r == IF Defect = "swallow" THEN 0 ELSE status IN
  /\ (IF phase = "call" THEN Emit(Return(f, r, IF r = 0 THEN Digest(prog) ELSE <<>>)) ELSE Emit(Again(f, r, Digest(prog))))
  /\ phase' = (IF r = 0 THEN "own" ELSE "again")
  \* what has not been released is lost
  /\ temps' = {} /\ outs' = (IF status = 1 THEN {} ELSE outs) /\ files' = 0
  /\ UNCHANGED <<prog, pc, object, next, attempt, status>>
(* the caller *)
Owner == phase = "own" /\ \E p \in outs \cup object : Emit(Free(f, p)) /\ outs' = outs \ {p} /\ object' = object \ {p} /\ UNCHANGED <<prog, pc, phase, temps, next, files, attempt, status>>
Finish == phase = "own" /\ outs \cup object = {} /\ Emit(End(f)) /\
  (IF attempt > Len(prog) THEN phase' = "done" /\ UNCHANGED attempt ELSE phase' = "begin" /\ attempt' = attempt + 1) /\
  UNCHANGED <<prog, pc, temps, outs, object, next, files, status>>
Next == Begin \/ Again2 \/ Acquire \/ Failing \/ Release \/ Steal \/ Close \/ Ret \/ Owner \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sound == bad = ""
Complete == phase = "done" => Done(f).g = ""
Ends == <>(phase = "done")
====
