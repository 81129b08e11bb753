----------------------------- MODULE TensorParallel -----------------------------
(* Layers split over tensor parallel ranks.  Matrices are sequences of rows of     *)
(* integers.  Every layer is given twice: by what it computes, and by what the     *)
(* ranks do with their slices and the collectives between them.                    *)
EXTENDS Integers, Sequences, Reshard
RECURSIVE Dot(_, _)
Dot(u, v) == IF u = <<>> THEN 0 ELSE (u[1] * v[1]) + Dot(Tail(u), Tail(v))
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
T(m) == IF m = <<>> THEN <<>> ELSE [j \in 1..Len(m[1]) |-> Col(m, j)]
Mul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> Dot(a[i], Col(b, j))]]
Add(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> a[i][j] + b[i][j]]]
RECURSIVE Sum(_)
Sum(ms) == IF Len(ms) = 1 THEN ms[1] ELSE Add(ms[1], Sum(Tail(ms)))
RECURSIVE Adds(_)
Adds(q) == IF q = <<>> THEN 0 ELSE q[1] + Adds(Tail(q))
\* What the layers compute, and the gradients for the gradient g of the output.
Linear(x, w, b) == LET y == Mul(x, T(w)) IN IF b = <<>> THEN y ELSE [i \in 1..Len(y) |-> [j \in 1..Len(y[i]) |-> y[i][j] + b[j]]]
LinearDx(g, w) == Mul(g, w)
LinearDw(g, x) == Mul(T(g), x)
LinearDb(g) == [j \in 1..Len(g[1]) |-> Adds(Col(g, j))]
Embed(x, w) == [i \in 1..Len(x) |-> w[x[i] + 1]]
RECURSIVE RowAdds(_, _, _)
\* The sum of column j of g over the positions of token t.
RowAdds(x, g, tj) == IF x = <<>> THEN 0 ELSE (IF x[1] = tj[1] THEN g[1][tj[2]] ELSE 0) + RowAdds(Tail(x), Tail(g), tj)
\* pad: the token without gradient, or any number that is no token.
EmbedDw(x, g, rows, pad) == [t \in 1..rows |-> [j \in 1..Len(g[1]) |-> IF t - 1 = pad THEN 0 ELSE RowAdds(x, g, <<t - 1, j>>)]]
\* The slice of a vector.
Part(b, n, r) == IF b = <<>> THEN <<>> ELSE LET s == Len(b) \div n IN SubSeq(b, (r * s) + 1, (r * s) + s)
=============================================================================
