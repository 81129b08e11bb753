------------------------------ MODULE MetricBag ------------------------------
(* A bag of metrics with transactions.                                         *)
(*   x.cur  : name -> metric, for the names in the bag (a function)            *)
(*   x.orig : <<>> outside of transactions, else <<bag at their beginning>>    *)
(*   x.saved: the saved states, in order                                       *)
(* A metric is [k |-> kind, s |-> sum of value * weight, w |-> sum of weights, *)
(* mn |-> smallest, mx |-> largest value]; INF stands for no value.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 1000000
EmptyM(k) == [k |-> k, s |-> 0, w |-> 0, mn |-> INF, mx |-> -INF]
Put(m, v, w) == [m EXCEPT !.s = @ + v * w, !.w = @ + w,
                          !.mn = IF v < @ THEN v ELSE @, !.mx = IF v > @ THEN v ELSE @]
Merge(a, b) == [a EXCEPT !.s = @ + b.s, !.w = @ + b.w,
                         !.mn = IF b.mn < @ THEN b.mn ELSE @, !.mx = IF b.mx > @ THEN b.mx ELSE @]
NoBag == [n \in {} |-> EmptyM("sum")]
InitX == [cur |-> NoBag, orig |-> <<>>, saved |-> <<>>]

Names(x) == DOMAIN x.cur
CanAdd(x, n) == n \notin Names(x)
Add(x, n, k) == [x EXCEPT !.cur = (n :> EmptyM(k)) @@ @]
Update(x, n, v, w) == [x EXCEPT !.cur[n] = Put(@, v, w)]
Begin(x) == [x EXCEPT !.orig = <<x.cur>>]
Commit(x) == [x EXCEPT !.orig = <<>>]
Rollback(x) == [x EXCEPT !.cur = x.orig[1], !.orig = <<>>]
Reset(x) == [x EXCEPT !.cur = [n \in DOMAIN @ |-> EmptyM(@[n].k)]]
Save(x) == [x EXCEPT !.saved = Append(@, x.cur)]
\* A state fits a bag with the same metrics.
Fits(x, i) == /\ DOMAIN x.saved[i] = Names(x)
              /\ \A n \in Names(x) : x.saved[i][n].k = x.cur[n].k
\* What the kind of a metric keeps in its state is restored.
Load(x, i) == [x EXCEPT !.cur = x.saved[i]]

\* Does `got` tell the value of metric m? Means are given in units of 1/27720.
Unit == 27720
Abs(a) == IF a < 0 THEN -a ELSE a
IsValue(m, got) ==
    CASE m.k = "sum" -> got = m.s
      [] m.k = "min" -> got = m.mn
      [] m.k = "max" -> got = m.mx
      [] m.k = "mean" -> IF m.w = 0 THEN got = 0 ELSE Abs(got * m.w - m.s * Unit) <= m.w
=============================================================================
