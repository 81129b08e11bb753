-------------------------------- MODULE RngGen --------------------------------
(* Histories of a bag of generators.                                           *)
EXTENDS Rng, Json
CONSTANTS Gens, Depth, Seeds, Kinds, Emitting
VARIABLES b, hist, memo
vars == <<b, hist, memo>>
Init == b = InitB(Gens) /\ hist = <<>> /\ memo = <<>>
Op(a, g, x) == [a |-> a, g |-> g, x |-> x]
Log(e) == hist' = Append(hist, e)
DrawIt(g, k) == b' = Draw(b, g, k) /\ Log(Op("draw", g, k)) /\ UNCHANGED memo
ManualIt(s) == b' = (IF Fits(s) THEN Manual(b, s) ELSE b) /\ Log(Op("manual", 0, s)) /\ UNCHANGED memo
SeedIt == b' = Seed(b) /\ Log(Op("seed", 0, "")) /\ UNCHANGED memo
EnterIt(s) == /\ Log(Op("enter", 0, s))
              /\ IF Fits(s) THEN b' = Enter(b, s) /\ memo' = Append(memo, b.gens) ELSE UNCHANGED <<b, memo>>
LeaveIt(how) == b.scopes # <<>> /\ b' = Leave(b) /\ Log(Op(how, 0, "")) /\ memo' = SubSeq(memo, 1, Len(memo) - 1)
SaveIt == b' = Save(b) /\ Log(Op("save", 0, "")) /\ UNCHANGED memo
LoadIt(i) == b' = Load(b, i) /\ Log(Op("load", i, "")) /\ UNCHANGED memo
Next == /\ Len(hist) < Depth
        /\ \/ \E g \in 1..Gens, k \in Kinds : DrawIt(g, k)
           \/ \E s \in Seeds : ManualIt(s)
           \/ SeedIt
           \/ \E s \in Seeds : EnterIt(s)
           \/ \E how \in {"exit", "raise"} : LeaveIt(how)
           \/ SaveIt
           \/ \E i \in 1..Len(b.slots) : LoadIt(i)
Spec == Init /\ [][Next]_vars
\* A scope leaves no trace, whatever happened inside.
NoLeak == [][Len(b'.scopes) < Len(b.scopes) => b'.gens = memo[Len(memo)]]_vars
\* Generators seeded together stay together as long as they are drawn from alike.
Together == \A g, h \in 1..Gens : b.gens[g].st = b.gens[h].st \/ \E k \in 1..Gens : b.gens[k].st = "init" \o ToString(k)
Emit == Emitting /\ Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
=============================================================================
