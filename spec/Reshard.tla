-------------------------------- MODULE Reshard --------------------------------
(* Parameters of a model cut over tensor parallel ranks (along dimension 0, 1 or  *)
(* not at all) and over data parallel ranks (in chunks of rows), and their way    *)
(* from one layout to another.  A tensor is a sequence of rows of element numbers;*)
(* a vector is a tensor of one column.                                            *)
EXTENDS Naturals, Sequences
WHOLE == 2 \* the dimension of a parameter that is not cut
Full(rows, cols, base) == [i \in 1..rows |-> [j \in 1..cols |-> base + ((i - 1) * cols) + (j - 1)]]
Dim(m, d) == IF d = 0 THEN Len(m) ELSE Len(m[1])
Narrow(m, d, start, n) == IF d = 0 THEN SubSeq(m, start + 1, start + n) ELSE [i \in 1..Len(m) |-> SubSeq(m[i], start + 1, start + n)]
\* The slice of rank r of n.
Slice(m, d, n, r) == IF d = WHOLE THEN m ELSE LET s == Dim(m, d) \div n IN Narrow(m, d, r * s, s)
\* The rows of rank r of n: equal chunks, the last ones short or empty.
Least(x, y) == IF x < y THEN x ELSE y
ChunkBegin(rows, n, r) == Least(rows, r * ((rows + n - 1) \div n))
Chunk(m, n, r) == SubSeq(m, ChunkBegin(Len(m), n, r) + 1, ChunkBegin(Len(m), n, r + 1))
RECURSIVE Cat(_, _)
Cat(ms, d) ==
    IF Len(ms) = 1 THEN ms[1]
    ELSE LET rest == Cat(Tail(ms), d) IN
         IF d = 0 THEN ms[1] \o rest ELSE [i \in 1..Len(ms[1]) |-> ms[1][i] \o rest[i]]
\* The whole tensor in the hands of rank r of tp, data parallel rank s of dp.
Held(m, d, tp, dp, r, s) == Chunk(Slice(m, d, tp, r), dp, s)
\* The way of the code: unshard over the rows, then join only the slices that the
\* target slice touches and cut it out of them.  splits: [tp][dp]
Unsharded(splits) == [t \in 1..Len(splits) |-> Cat(splits[t], 0)]
Moved(splits, d, tgt, r) ==
    LET src == Len(splits) u == Unsharded(splits) IN
    IF d = WHOLE THEN u[1]
    ELSE LET s == Dim(u[1], d) n == (s * src) \div tgt
             first == r * n last == ((r * n) + n) - 1
             a == first \div s b == last \div s IN
         Narrow(Cat(SubSeq(u, a + 1, b + 1), d), d, first - (a * s), n)
\* Same number of slices on both sides: the file of the rank alone is read.
Copied(splits, r) == Cat(splits[r + 1], 0)
=============================================================================
