------------------------------ MODULE ReshardTrace ------------------------------
(* Checkpoints written under one layout and loaded by the real loaders, the real  *)
(* model families and FSDP under another.  A parameter is numbered from e.base;   *)
(* what arrives is described by the number of columns and the first element of    *)
(* each row, with "whole" rows being consecutive numbers.                         *)
EXTENDS Reshard, FiniteSets, Batch
Starts(m) == [i \in 1..Len(m) |-> m[i][1]]
Same(g, m) == g.whole /\ g.starts = Starts(m) /\ (Len(m) > 0 => g.cols = Len(m[1]))
Tensor(p) == Full(p.rows, p.cols, p.base)
\* Rows of consecutive numbers of the slice of rank r of n, without building it.
SliceStarts(p, n, r) ==
    IF p.dim = 0 THEN [i \in 1..(p.rows \div n) |-> p.base + (((r * (p.rows \div n)) + i - 1) * p.cols)]
    ELSE IF p.dim = 1 THEN [i \in 1..p.rows |-> p.base + ((i - 1) * p.cols) + (r * (p.cols \div n))]
    ELSE [i \in 1..p.rows |-> p.base + ((i - 1) * p.cols)]
SliceCols(p, n) == IF p.dim = 1 THEN p.cols \div n ELSE p.cols
\* A parameter arrives as the slice of its rank.
Arrives(name, g, p, n, r) ==
    Exp(name \o " " \o p.key, <<g.whole, g.cols, g.starts>>, <<TRUE, SliceCols(p, n), SliceStarts(p, n, r)>>)
Pars(e) == {e.pars[i] : i \in 1..Len(e.pars)}
Got(e) == {e.got[i] : i \in 1..Len(e.got)}
Keys(S) == {p.key : p \in S}
\* Whether the harm is in a file that this rank reads: with as many ranks as slices, its own.
Reads(e) == e.harm.tp = 99 \/ e.src.tp # e.tp \/ e.harm.tp = e.rank
Harmed(e) == e.harm.kind # "none" /\ Reads(e)
Load(e) ==
    \* A slice of another shape is noticed where it is used.
    IF e.harm.kind = "misshapen" THEN Exp("outcome for slices of different shapes", e.res \in {"ok", "corrupt"}, TRUE)
    ELSE IF Harmed(e) THEN Exp("outcome for a damaged checkpoint", e.res, IF e.harm.kind = "missing" THEN "absent" ELSE "corrupt")
    ELSE
    /\ Exp("outcome", e.res, "ok")
    /\ Exp("parameters", Keys(Got(e)), Keys(Pars(e)))
    /\ Exp("parameters arrive once", Len(e.got), Len(e.pars))
    /\ \A p \in Pars(e) : \A g \in Got(e) : g.key = p.key => Arrives("slice of", g, p, e.tp, e.rank)
\* The model of the rank, filled from the checkpoint.  A parameter is cut along the dimension
\* in which the model of the rank is smaller than the whole one.
Cut(p, n) == IF p.rows # p.lrows THEN 0 ELSE IF p.cols # p.lcols THEN 1 ELSE WHOLE
Model(e) ==
    \* The last slice has the wrong shape, and the last rank uses it.
    IF e.harm.kind = "bent slice" /\ e.rank < e.tp - 1 THEN Exp("outcome for a bent slice", e.res \in {"ok", "corrupt"}, TRUE)
    ELSE IF e.harm.kind # "none" THEN Exp("outcome for a damaged checkpoint", e.res, "corrupt")
    ELSE
    /\ Exp("outcome", e.res, "ok")
    /\ \A i \in 1..Len(e.pars) :
         LET p == e.pars[i] q == [key |-> p.key, rows |-> p.rows, cols |-> p.cols, base |-> p.base, dim |-> Cut(p, e.tp)] IN
         /\ Exp("shape of " \o p.key, <<p.lrows, p.lcols>>, <<IF q.dim = 0 THEN p.rows \div e.tp ELSE p.rows, SliceCols(q, e.tp)>>)
         /\ Arrives("model has of", p.got, q, e.tp, e.rank)
\* What a rank of a sharded data parallel gang saves and gets back.
Fsdp(e) ==
    /\ Exp("outcome", e.res, "ok")
    /\ Exp("sharded model computes what the whole one does, before and after restoring", e.forward, TRUE)
    /\ \A p \in Pars(e) :
         /\ Exp("rows saved of " \o p.key, p.saved.starts, Starts(Chunk(Tensor(p), e.dp, e.rank)))
         /\ Exp("rows restored of " \o p.key, p.restored.starts, p.saved.starts)
         /\ Arrives("summoned", p.summoned, p, 1, 0)
\* Buffers are saved whole by every rank.
Buffers(e) == \A i \in 1..Len(e.got) : Exp("loaded " \o e.kind \o " buffer " \o e.got[i].key, e.got[i].vals, e.got[i].want)
Step ==
    LET e == Ev IN
    CASE e.op = "load" -> Load(e)
      [] e.op = "model" -> Model(e)
      [] e.op = "fsdp" -> Fsdp(e)
      [] e.op = "buffers" -> Buffers(e)
Init == BatchInit
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
