--------------------------- MODULE HuggingFaceTrace ---------------------------
(* Exports made by the real code.                                                *)
EXTENDS HuggingFace, Batch
vars == <<tid, l>>
Step ==
    LET e == Ev  c == Cfg IN
    CASE e.op = "outcome" -> Exp("outcome of the export", e.out, "ok")
      [] e.op = "tensor" ->
           \* e.n has become e.hf; e.i and e.hi are the numbers in the names, -1 if there is none
           /\ Chk("a tensor that no parameter of fairseq2 is: " \o e.n, HasName(c.fam, e.n))
           /\ HasName(c.fam, e.n) => Exp("name of " \o e.n, e.hf, NameOf(c.fam, e.n))
           /\ Exp("number in the name of " \o e.n, e.hi, e.i)
           /\ Exp("rows of " \o e.n, e.rows, Rows(c, e.n, Len(e.rows)))
      [] e.op = "names" ->
           \* names of the parameters that were exported, and of those of the model
           /\ Exp("exported parameters, numbers left out", {e.got[i] : i \in 1..Len(e.got)}, {p[1] : p \in Names(c.fam)} \ Dropped(c))
           /\ Exp("parameters that were not exported", {e.lost[i] : i \in 1..Len(e.lost)}, Dropped(c))
      [] e.op = "back" ->
           /\ Exp("parameters lost by exporting and importing", e.lost, <<>>)
           /\ Exp("parameters that come from nowhere", e.extra, <<>>)
           /\ Exp("parameters that are not the same after exporting and importing", e.changed, <<>>)
      [] e.op = "config" -> Exp("exported configuration", e.got, Exported(c))
      [] e.op = "load" ->
           /\ Exp("parameters that the export does not contain", e.missing, <<>>)
           /\ Exp("parameters of the wrong shape", e.mismatched, <<>>)
           /\ Chk("exported parameters without use: " \o ToJson(e.unexpected), \A i \in 1..Len(e.unexpected) : e.unexpected[i] \in Unused(c))
      [] e.op = "same" -> Exp("positions at which the outputs differ", e.differ, <<>>)
Init == BatchInit
Next == BatchMore /\ Step /\ BatchStep
Spec == Init /\ [][Next]_vars
===============================================================================
