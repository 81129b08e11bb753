---------------------------- MODULE LossScalerGen ----------------------------
(* All patterns of good and bad steps, saves and restores.                      *)
EXTENDS LossScaler, Json
CONSTANTS Depth, Window, Min, Emitting
VARIABLES s, saved, hist
vars == <<s, saved, hist>>
P == [init |-> 16, factor |-> 2, window |-> Window, min |-> Min, noop |-> FALSE]
None == [scale |-> 0, good |-> 0]

Init == s = Fresh(P) /\ saved = None /\ hist = <<>>
Log(a) == hist' = Append(hist, a)
Good == s' = After(P, s, FALSE) /\ Log("good") /\ UNCHANGED saved
Bad == s' = After(P, s, TRUE) /\ Log("bad") /\ UNCHANGED saved
Save == saved # s /\ saved' = s /\ Log("save") /\ UNCHANGED s
Restore == saved # None /\ s' = saved /\ Log("restore") /\ UNCHANGED saved
Next == Len(hist) < Depth /\ (Good \/ Bad \/ Save \/ Restore)
Spec == Init /\ [][Next]_vars

\* Number of good steps at the end of the history, if nothing was restored.
RECURSIVE Run(_)
Run(h) == IF h = <<>> THEN 0 ELSE IF h[Len(h)] = "bad" THEN 0
          ELSE Run(SubSeq(h, 1, Len(h) - 1)) + (IF h[Len(h)] = "good" THEN 1 ELSE 0)
Count(h, x) == Cardinality({i \in 1..Len(h) : h[i] = x})
Floor == s.scale >= Min
Fewer == s.good \in 0..(Window - 1)
\* The scale grows only with a full window of good steps right behind it.
GrowsLate == [][s'.scale > s.scale /\ Count(hist', "restore") = 0
                => Run(hist') > 0 /\ Run(hist') % Window = 0]_vars
ShrinksOnBad == [][s'.scale < s.scale => hist'[Len(hist')] \in {"bad", "restore"}]_vars
Emit == Emitting /\ Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
=============================================================================
