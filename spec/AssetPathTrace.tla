--------------------------- MODULE AssetPathTrace ---------------------------
(* Parts of assets loaded by the families of models and tokenizers.          *)
EXTENDS AssetPath, Batch
vars == <<tid, l>>
Load ==
    LET in == ~Ev.part \/ Within(Ev.tree, Ev.asset, Ev.sub) IN
    IF IsLoop(Real(Ev.tree, Ev.asset)) \/ IsLoop(Where(Ev.tree, Ev.asset, Ev.sub)) THEN TRUE ELSE
    /\ Exp("loading " \o Ev.who, Ev.got, IF in THEN "loaded" ELSE "refused")
    /\ IF in THEN Exp("location that is loaded", Ev.at, IF Ev.part THEN Where(Ev.tree, Ev.asset, Ev.sub) ELSE Real(Ev.tree, Ev.asset)) ELSE TRUE
Init == BatchInit
Next == BatchMore /\ Load /\ BatchStep
Spec == Init /\ [][Next]_vars
=============================================================================
