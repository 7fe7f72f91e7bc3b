--------------------------------- MODULE MC_Plot ---------------------------------
(* plots that are displayed by processes that read the data file at any time after the plot function returned.
   a failing allocation leaves out the plot, and without a file nothing can be displayed. checks that each display shows the data of its plot *)
EXTENDS Plot
CONSTANTS Plots, Values, Fault
VARIABLES next, files, index, waiting, shown, missing
vars == <<next, files, index, waiting, shown, missing>>
DataOf(p) == [k \in 1 .. p % 3 |-> ((p * 7919 + k * 104729) % Values) - (Values \div 2)]
Text(v) == FoldLeft(LAMBDA a, x : a \o SampleText(x) \o <<Newline>>, <<>>, v)
Init == next = 1 /\ files = [i \in {} |-> <<>>] /\ index = 0 /\ waiting = {} /\ shown = {} /\ missing = {}
Write(i, t) == files' = [k \in DOMAIN files \cup {i} |-> IF k = i THEN t ELSE files[k]]
Plot == next <= Plots /\ next' = next + 1 /\ shown' = shown
  /\ \E f \in {"", "memory", "file"} :
       /\ index' = IF f = "memory" \/ Fault = "index" THEN index ELSE index + 1
       /\ IF f = "" THEN Write(index, Text(DataOf(next))) ELSE UNCHANGED files
       /\ waiting' = IF f = "memory" THEN waiting ELSE waiting \cup {<<next, index>>}
       /\ missing' = IF f = "file" THEN missing \cup {next} ELSE missing
Display == \E w \in waiting :
  /\ waiting' = waiting \ {w} /\ shown' = shown \cup {<<w[1], w[2] \in DOMAIN files, IF w[2] \in DOMAIN files THEN files[w[2]] ELSE <<>>>>}
  /\ files' = IF Fault = "remove" THEN [k \in DOMAIN files \ {w[2] - 1} |-> files[k]] ELSE files
  /\ UNCHANGED <<next, index, missing>>
Next == Plot \/ Display
Spec == Init /\ [][Next]_vars
Own == \A x \in shown : IF x[1] \in missing THEN ~x[2] ELSE x[2] /\ SamplesFile(x[3], DataOf(x[1]))
\* texts determine the values
Unique == next = 1 => /\ \A v \in {0, 1, 999, 1000, 1001, 9999, 10000, 123456789} : Thousandths(SampleText(v)) = v /\ (v > 0 => SampleText(-v) = <<Minus>> \o SampleText(v))
                      /\ \A a, b \in {0, 1, 9, 10, 99, 100, 429496} : \A c, d \in {0, 1, 9, 10, 999, 1000, 9999, 7295} : TimeText(<<a, c>>) = TimeText(<<b, d>>) => a = b /\ c = d
==================================================================================
