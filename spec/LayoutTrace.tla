------------------------------ MODULE LayoutTrace ------------------------------
(* Layouts, batches, masks, position encodings and feature extractors of the    *)
(* real code.  Elements of a batch are numbered by slot.                         *)
EXTENDS Layout, Batch
N(e) == IF e.packed THEN Len(e.lens) ELSE e.n
\* Without lengths every row is full.
Lens(e) == IF e.nolens THEN (IF e.packed THEN <<e.w>> ELSE [s \in 1..e.n |-> e.w]) ELSE e.lens
Fine(e) == Valid(e.packed, e.n, e.w, Lens(e))
Lay(e) ==
    LET f == Lens(e) m == e.n w == e.w p == e.packed IN
    /\ Exp("layout is accepted", e.ok, Fine(e))
    /\ e.ok =>
       /\ Exp("sequence boundaries", e.begins, Begins(p, w, f))
       /\ Exp("sequence lengths", e.got, f)
       /\ Exp("boundaries and lengths as tensors", <<e.beginspt, e.gotpt>>, <<e.begins, e.got>>)
       /\ Exp("positions", e.pos, Positions(p, m, w, f))
       /\ Exp("width", e.width, w)
       /\ Exp("shortest and longest sequence", <<e.min, e.max>>, <<MinOf(f, w), MaxOf(f, 0)>>)
       /\ Exp("padded", e.padded, Padding(p, m, w, f) > 0)
       /\ Exp("packed", e.ispacked, p)
\* The counts of a batch of sequences b; bits: its target mask, one bit per slot.
RECURSIVE Ones(_)
Ones(q) == IF q = <<>> THEN 0 ELSE q[1] + Ones(Tail(q))
Counts(name, b, m, w, f) ==
    /\ Exp(name \o ": lengths", b.lens, f)
    /\ Exp(name \o ": elements", b.elems, Total(f))
    /\ Exp(name \o ": padding", b.pad, Padding(b.packed, m, w, f))
    /\ Exp(name \o ": rows and sequences", <<b.size, b.examples>>, IF b.packed THEN <<1, Len(f)>> ELSE <<m, m>>)
Targets(name, b, masked, bits, f) == Exp(name \o ": targets", b.targets, IF masked THEN Ones(bits) ELSE Total(f))
Bits(packed, m, w, bits, by) == LET s == ShiftSlots(packed, m, w, by) IN [x \in 1..Len(s) |-> bits[s[x] + 1]]
Seqs(e) ==
    LET f == Lens(e) m == e.n w == e.w p == e.packed
        good == Fine(e) /\ Len(f) > 0 IN
    /\ Exp("batch is accepted", e.ok, good)
    /\ e.ok =>
       /\ Counts("batch", e.b, m, w, f)
       /\ Targets("batch", e.b, e.masked, e.bits, f)
       /\ Exp("elements", e.b.slots, [x \in 1..Slots(p, m, w) |-> x - 1])
       /\ LET able == Shiftable(p, f) g == ShiftLens(p, f) IN
          /\ Exp("batch is shifted", e.shift, able)
          /\ able =>
             /\ Counts("input", e.i, m, w - 1, g) /\ Counts("target", e.t, m, w - 1, g)
             /\ Exp("input elements", e.i.slots, ShiftSlots(p, m, w, 0))
             /\ Exp("target elements", e.t.slots, ShiftSlots(p, m, w, 1))
             /\ Exp("target has a mask", e.t.masked, e.masked)
             /\ e.masked => Exp("mask of targets", e.t.bits, Bits(p, m, w, e.bits, 1))
             /\ Targets("target", e.t, e.masked, Bits(p, m, w, e.bits, 1), g)
             /\ Exp("example of inputs", e.kept, TRUE)
\* Pairs: a source batch (s) and a target batch.
Pairs(e) ==
    LET f == Lens(e) m == e.n w == e.w p == e.packed
        h == Lens(e.s)
        good == Fine(e) /\ Len(f) > 0 /\ Valid(p, e.s.n, e.s.w, h) /\ Len(h) > 0 /\ Len(h) = Len(f) IN
    /\ Exp("batch of pairs is accepted", e.ok, good)
    /\ e.ok =>
       /\ Exp("source and target lengths", <<e.b.slens, e.b.lens>>, <<h, f>>)
       /\ Exp("elements", <<e.b.elems, e.b.selems>>, <<Total(f) + Total(h), Total(h)>>)
       /\ Targets("batch of pairs", e.b, e.masked, e.bits, f)
       /\ Exp("padding", e.b.pad, Padding(p, m, w, f) + Padding(p, m, e.s.w, h))
       /\ Exp("rows and pairs", <<e.b.size, e.b.examples>>, IF p THEN <<1, Len(f)>> ELSE <<m, m>>)
       /\ LET able == Shiftable(p, f) /\ (p => Len(ShiftLens(p, f)) = Len(h)) g == ShiftLens(p, f) IN
          /\ Exp("batch of pairs is shifted", e.shift, able)
          /\ able =>
             /\ Exp("input elements", e.i.slots, ShiftSlots(p, m, w, 0))
             /\ Exp("input lengths", <<e.i.slens, e.i.lens>>, <<h, g>>)
             /\ Exp("source elements", e.i.sslots, [x \in 1..Slots(p, m, e.s.w) |-> x - 1])
             /\ Counts("target", e.t, m, w - 1, g)
             /\ Exp("target elements", e.t.slots, ShiftSlots(p, m, w, 1))
             /\ e.masked => Exp("mask of targets", e.t.bits, Bits(p, m, w, e.bits, 1))
             /\ Targets("target", e.t, e.masked, Bits(p, m, w, e.bits, 1), g)
\* A random mask: spans of real elements, as many per row.
RowLens(e) == IF e.nolens THEN [s \in 1..e.n |-> e.w] ELSE e.lens
RowMask(e) ==
    LET f == RowLens(e)
        short == \E s \in 1..e.n : e.span >= f[s]
        spans(s) == (e.quarters * (f[s] - 1)) \div (4 * e.span)
        num == IF e.n = 0 THEN 0 ELSE spans(CHOOSE s \in 1..e.n : \A r \in 1..e.n : spans(s) <= spans(r))
        row(s) == {x - 1 : x \in {y \in 1..e.w : e.mask[s][y] = 1}}
        c == Cardinality(row(1)) IN
    /\ Exp("mask is accepted", e.ok, ~short /\ e.minspans <= num)
    /\ e.ok =>
       /\ Exp("shape of the mask", e.shape, <<e.n, e.w>>)
       /\ Chk("the mask is not boolean", e.bool)
       /\ \A s \in 1..e.n :
          /\ Chk("padding is masked", \A x \in row(s) : x < f[s])
          /\ Chk("rows have different numbers of masked elements", Cardinality(row(s)) = c)
          /\ Chk("a row has too many masked elements", c <= num * e.span /\ c < f[s])
          /\ Chk("a row has too few masked elements", num > 0 => c >= e.span)
\* What is left of masked features: 0 the feature, 1 the mask embedding, 2 zero.
Masker(e) ==
    \A s \in 1..e.n :
        LET zero == {d \in 1..e.dim : \A x \in 1..e.w : e.code[s][x][d] = 2} IN
        /\ Exp("number of features set to zero", Cardinality(zero) > 0, e.spatial)
        /\ \A x \in 1..e.w : \A d \in 1..e.dim :
              Chk("masked features differ from the mask", e.code[s][x][d] = (IF d \in zero THEN 2 ELSE e.mask[s][x]))
        /\ Exp("masked elements", e.taken[s], SelectSeq([x \in 1..e.w |-> ((s - 1) * e.w) + (x - 1)], LAMBDA y : e.mask[s][(y % e.w) + 1] = 1))
Apply(e) == Exp("masked elements", e.got, [x \in 1..Len(e.mask) |-> IF e.mask[x] = 1 THEN x ELSE e.fill])
\* Which position every real element is given an encoding of.
Encode(e) ==
    LET f == Lens(e) want == Positions(e.packed, e.n, e.w, f)
        fits == e.start + MaxOf(f, 0) <= e.limit IN
    /\ Exp("positions are encoded", e.ok, fits)
    /\ e.ok => \A x \in 1..Len(want) : want[x] >= 0 => Exp("position of element " \o ToString(x - 1), e.at[x], want[x] + e.start)
\* Scores of equal queries and keys with rotated positions, in 1/10000.
Rotary(e) == \A i, j \in 1..Len(e.score) : (i > 1 /\ j > 1) =>
    Chk("score depends on more than the distance", (e.score[i][j] - e.score[i - 1][j - 1]) \in -20..20)
\* A feature extractor: lengths of the batch, and of every sequence alone.
Front(e) ==
    /\ Exp("lengths of extracted features", e.got, e.alone)
    /\ Exp("rows of extracted features", e.rows, Len(e.alone))
    /\ e.exact => Exp("sequences with other features than alone", e.differ, <<>>)
Init == BatchInit
Step == CASE Ev.op = "layout" -> Lay(Ev)
          [] Ev.op = "seqs" -> Seqs(Ev)
          [] Ev.op = "pairs" -> Pairs(Ev)
          [] Ev.op = "rowmask" -> RowMask(Ev)
          [] Ev.op = "masker" -> Masker(Ev)
          [] Ev.op = "apply" -> Apply(Ev)
          [] Ev.op = "encode" -> Encode(Ev)
          [] Ev.op = "rotary" -> Rotary(Ev)
          [] Ev.op = "front" -> Front(Ev)
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
