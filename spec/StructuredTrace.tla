---------------------------- MODULE StructuredTrace ----------------------------
(* Values structured and unstructured by the real code.                          *)
EXTENDS Structured, Batch
vars == <<tid, l>>
Show(x) == ToJson(x)
Step ==
    LET e == Ev T == e.ty IN
    CASE e.op = "take" ->
           /\ Chk("structuring " \o Show(e.d) \o " ended in " \o e.err, e.err \in {"", "refused"})
           /\ IF e.err = "refused" THEN Chk("refused data that is of the type: " \o Show(e.d), May0(T, e.d))
              ELSE /\ Chk("data " \o Show(e.d) \o " was structured to " \o Show(e.out), Fits(T, e.d, e.out))
                   /\ Chk("structured value " \o Show(e.out) \o " structured again is " \o Show(e.again), Plain(T) => e.again = e.out)
                   /\ Chk("structured value " \o Show(e.out) \o " is not of the type", Has(T, e.out))
           /\ Exp("data after structuring", e.inputs, "unchanged")
      [] e.op = "trip" ->
           /\ Exp("unstructuring", e.err1, "")
           /\ Chk("untyped form of " \o Show(e.x) \o ": " \o Show(e.flat), Flats(e.fields, e.x, e.flat))
           /\ Chk("untyped form read back from YAML: " \o Show(e.yaml), e.yaml = e.flat)
           /\ Chk("reading back the untyped form of " \o Show(e.x) \o " ended in " \o e.err, e.err = "" \/ (e.err = "refused" /\ ~Plain(T) /\ May0(T, e.flat)))
           /\ Chk("untyped form of " \o Show(e.x) \o " read back as " \o Show(e.out), e.err = "refused" \/ (Fits(T, e.flat, e.out) /\ (Plain(T) => e.out = e.x)))
           /\ Exp("value after unstructuring", e.inputs, "unchanged")
Init == BatchInit
Next == BatchMore /\ Step /\ BatchStep
Spec == Init /\ [][Next]_vars
===============================================================================
