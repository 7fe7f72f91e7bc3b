-------------------------------- MODULE MC_File --------------------------------
(* algorithm of writing and reading wav files, on cells instead of bytes.
   writing: a header with placeholders, appended chunks that may fail, the sizes are entered when closing.
   reading: the chunk walk with a read position that stops at the end, reads in parts.
   cells: <<"riff", size>>, <<"chunk", id, size>>, <<"x", k>> *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Frames, Extra, MaxPart, NoSeek
ASSUME NoSeek \in BOOLEAN
VARIABLES phase, file, size, next, want, at, pos, got, st
vars == <<phase, file, size, next, want, at, pos, got, st>>
\* want: what a user expects in the file
Init == phase = "new" /\ file = <<>> /\ size = 0 /\ next = 1 /\ want = <<>> /\ at = 0 /\ pos = 0 /\ got = <<>> /\ st = "ok"
Open == phase = "new" /\ phase' = "write" /\ file' = <<<<"riff", 0>>, <<"chunk", "data", 0>>>> /\ UNCHANGED <<size, next, want, at, pos, got, st>>
Write == phase = "write" /\ \E n \in 0 .. MaxPart : next + n - 1 <= Frames /\
  LET d == [k \in 1 .. n |-> <<"x", next + k - 1>>] IN
  \/ file' = file \o d /\ size' = size + n /\ want' = want \o d /\ next' = next + n /\ UNCHANGED <<phase, at, pos, got, st>>
  \/ next' = next + n /\ UNCHANGED <<phase, file, size, want, at, pos, got, st>>   \* failed
Close == phase = "write" /\ phase' = "closed" /\ file' = [file EXCEPT ![1] = <<"riff", size + 1>>, ![2] = <<"chunk", "data", size>>] /\ UNCHANGED <<size, next, want, at, pos, got, st>>
\* other programs write chunks before the data chunk, or the file is cut off
RECURSIVE Chunks(_)
Chunks(S) == IF S = <<>> THEN <<>> ELSE <<<<"chunk", "other", Head(S)>>>> \o [k \in 1 .. Head(S) |-> <<"o", k>>] \o Chunks(Tail(S))
Alter == phase = "closed" /\ phase' = "altered" /\
  \E n \in 0 .. Extra : \E S \in [1 .. n -> 0 .. 2] : LET f == <<file[1]>> \o Chunks(S) \o SubSeq(file, 2, Len(file)) IN
    \/ file' = f /\ UNCHANGED <<size, next, want, at, pos, got, st>>
    \/ \E cut \in 1 .. Len(f) - 1 : file' = SubSeq(f, 1, cut) /\ LET d == 1 + Len(Chunks(S)) + 1 IN want' = SubSeq(want, 1, IF cut > d THEN cut - d ELSE 0) /\ UNCHANGED <<size, next, at, pos, got, st>>
Header == IF \E k \in 2 .. Len(file) : file[k][1] = "chunk" /\ file[k][2] = "data" THEN TRUE ELSE FALSE
ReadOpen == phase = "altered" /\ IF Len(file) < 2 THEN phase' = "failed" /\ UNCHANGED <<file, size, next, want, at, pos, got, st>> ELSE phase' = "walk" /\ at' = 2 /\ UNCHANGED <<file, size, next, want, pos, got, st>>
Walk == phase = "walk" /\
  IF at > Len(file) THEN phase' = "failed" /\ UNCHANGED <<file, size, next, want, at, pos, got, st>>
  ELSE IF file[at][2] = "data" THEN phase' = "read" /\ pos' = at + 1 /\ UNCHANGED <<file, size, next, want, at, got, st>>
  ELSE at' = at + 1 + (IF NoSeek THEN 0 ELSE file[at][3]) /\ UNCHANGED <<phase, file, size, next, want, pos, got, st>>
Read == phase = "read" /\ st = "ok" /\ \E n \in 1 .. MaxPart :
  LET k == IF pos + n - 1 <= Len(file) THEN n ELSE Len(file) - pos + 1 IN
  IF k = 0 THEN st' = "eof" /\ UNCHANGED <<phase, file, size, next, want, at, pos, got>>
  ELSE got' = got \o SubSeq(file, pos, pos + k - 1) /\ pos' = pos + k /\ UNCHANGED <<phase, file, size, next, want, at, st>>
Next == Open \/ Write \/ Close \/ Alter \/ ReadOpen \/ Walk \/ Read
Spec == Init /\ [][Next]_vars
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Sizes == phase = "closed" => file[2][3] = Len(file) - 2 /\ file[1][2] = Len(file) - 1
Same == phase = "read" => Prefix(got, want) /\ (st = "eof" => got = want)
Opened == phase = "failed" => ~Header
================================================================================
