-------------------------- MODULE TensorParallelTrace --------------------------
(* Split layers of the real code, run by real process groups: what every rank got. *)
EXTENDS TensorParallel, Batch
Cols(m, e) == Slice(m, 1, e.n, e.rank)
RowsOf(m, e) == Slice(m, 0, e.n, e.rank)
Sharp(e, name, got, want) == Exp(e.kind \o ": " \o name, got, want)
Column(e) ==
    LET y == Linear(e.x, e.w, e.b) IN
    /\ Sharp(e, "output", e.y, IF e.local THEN Cols(y, e) ELSE y)
    /\ Sharp(e, "gradient of the input", e.dx, LinearDx(e.g, e.w))
    /\ Sharp(e, "gradient of the weight", e.dw, RowsOf(LinearDw(e.g, e.x), e))
    /\ Sharp(e, "gradient of the bias", e.db, IF e.b = <<>> THEN <<>> ELSE Part(LinearDb(e.g), e.n, e.rank))
    /\ Sharp(e, "slice of the weight", e.mine, RowsOf(e.w, e))
Row(e) ==
    LET dx == LinearDx(e.g, e.w) IN
    \* Without reduction the outputs are the contributions of the ranks.
    /\ Sharp(e, "output", e.y, IF e.reduce THEN Linear(e.x, e.w, e.b) ELSE Linear(Cols(e.x, e), Cols(e.w, e), <<>>))
    /\ Sharp(e, "gradient of the input", e.dx, IF e.local THEN Cols(dx, e) ELSE dx)
    /\ Sharp(e, "gradient of the weight", e.dw, Cols(LinearDw(e.g, e.x), e))
    /\ Sharp(e, "gradient of the bias", e.db, IF e.b = <<>> THEN <<>> ELSE LinearDb(e.g))
    /\ Sharp(e, "slice of the weight", e.mine, Cols(e.w, e))
Embedding(e) ==
    LET d == EmbedDw(e.x, e.g, Len(e.w), e.pad) IN
    /\ Sharp(e, "output", e.y, Embed(e.x, e.w))
    /\ Sharp(e, "gradient of the weight", e.dw, IF e.kind = "vocab" THEN RowsOf(d, e) ELSE Cols(d, e))
    /\ Sharp(e, "slice of the weight", e.mine, IF e.kind = "vocab" THEN RowsOf(e.w, e) ELSE Cols(e.w, e))
\* Two layers with the hidden values cut, as in feed-forward networks.
Chain(e) ==
    LET h == Linear(e.x, e.w, e.b) gh == LinearDx(e.g, e.w2) IN
    /\ Sharp(e, "output", e.y, Linear(h, e.w2, e.b2))
    /\ Sharp(e, "gradient of the input", e.dx, LinearDx(gh, e.w))
    /\ Sharp(e, "gradient of the first weight", e.dw, RowsOf(LinearDw(gh, e.x), e))
    /\ Sharp(e, "gradient of the second weight", e.dw2, Cols(LinearDw(e.g, h), e))
\* Whole layers made of the slices again, and layers made from scratch with one seed.
Back(e) ==
    /\ Sharp(e, "whole weight", e.again, e.w)
    /\ Sharp(e, "whole bias", e.bagain, e.b)
Fresh(e) == Sharp(e, "slice of the initial weight", e.mine, IF e.dim = 0 THEN RowsOf(e.w, e) ELSE Cols(e.w, e))
\* The collectives themselves.  e.xs: the input of every rank; e.h: a tensor added to the result,
\* which shares its gradient with it; e.gs: the gradient at every rank.
Op(e) ==
    LET mine == e.xs[e.rank + 1] g == e.gs[e.rank + 1]
        f == CASE e.fn = "reduce" -> Sum(e.xs)
               [] e.fn = "scatter" -> Slice(mine, e.dim, e.n, e.rank)
               [] e.fn = "gather" -> Cat(e.xs, e.dim)
               [] e.fn = "reduce_on_backward" -> mine
        d == CASE e.fn = "reduce" -> g
               [] e.fn = "scatter" -> Cat(e.gs, e.dim)
               [] e.fn = "gather" -> Slice(g, e.dim, e.n, e.rank)
               [] e.fn = "reduce_on_backward" -> Sum(e.gs) IN
    /\ Exp(e.fn \o ": result", e.y, Add(f, e.h))
    /\ Exp(e.fn \o ": gradient", e.dx, d)
    /\ Exp(e.fn \o ": gradient of a tensor beside it", e.dh, g)
\* Whole models: outputs and gradients, rounded.
Near(a, b) == LET d == a - b IN d <= 1 /\ d >= 0 - 1
Close(m, k) == Len(m) = Len(k) /\ \A i \in 1..Len(m) : Len(m[i]) = Len(k[i]) /\ \A j \in 1..Len(m[i]) : Near(m[i][j], k[i][j])
Cut(p, e) ==
    IF Len(p.mine) # Len(p.whole) THEN RowsOf(p.whole, e) ELSE IF Len(p.mine[1]) # Len(p.whole[1]) THEN Cols(p.whole, e) ELSE p.whole
Model(e) ==
    /\ Chk("output of the split " \o e.family \o " model", Close(e.y, e.whole))
    /\ \A i \in 1..Len(e.pars) :
         Chk("gradient of " \o e.pars[i].key \o " of the split " \o e.family \o " model", Close(e.pars[i].mine, Cut(e.pars[i], e)))
Step ==
    LET e == Ev IN
    CASE e.kind = "column" -> Column(e)
      [] e.kind = "row" -> Row(e)
      [] e.kind \in {"vocab", "dim"} -> Embedding(e)
      [] e.kind = "chain" -> Chain(e)
      [] e.kind = "back" -> Back(e)
      [] e.kind = "fresh" -> Fresh(e)
      [] e.kind = "op" -> Op(e)
      [] e.kind = "model" -> Model(e)
Init == BatchInit
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
