------------------------- MODULE AttentionCacheDesign -------------------------
(* A cache of keys during incremental decoding.  hist: what each row of the     *)
(* batch was fed; kept: what the cache holds of it; view: the keys the queries  *)
(* of the last chunk, of n positions, could attend to.                          *)
(* Proved here: keeping what Past says is enough for every chunking and order.  *)
EXTENDS Attention, TLC, Json
CONSTANTS MaxLen, MaxChunk, MaxRows, MaxOps, Kind, Size, Gen
VARIABLES hist, kept, view, n, ops
vars == <<hist, kept, view, n, ops>>
B == [k |-> Kind, n |-> Size]
Long == Len(hist[1])
Init == /\ \E r \in 1..MaxRows : hist = [i \in 1..r |-> <<>>]
        /\ kept = hist /\ view = hist /\ n = 0 /\ ops = <<>>
Fed(k) == [i \in 1..Len(hist) |-> [t \in 1..k |-> (100 * Cardinality({o \in 1..Len(ops) : TRUE})) + (10 * i) + t]]
Feed == \E k \in 1..MaxChunk :
    /\ Long + k <= MaxLen /\ (Len(ops) < MaxOps)
    /\ LET new == Fed(k) IN
       /\ hist' = [i \in 1..Len(hist) |-> hist[i] \o new[i]]
       /\ view' = [i \in 1..Len(hist) |-> Suffix(kept[i], Past(B, Len(kept[i]))) \o new[i]]
       /\ kept' = [i \in 1..Len(hist) |-> LET v == view'[i] IN Suffix(v, Past(B, Len(v)))]
    /\ n' = k
    /\ ops' = Append(ops, [a |-> "feed", n |-> k, o |-> <<>>])
Pick(q, o) == [i \in 1..Len(o) |-> q[o[i]]]
Reorder == \E r \in 1..MaxRows : \E o \in [1..r -> 1..Len(hist)] :
    /\ Long > 0 /\ Len(ops) < MaxOps /\ ops[Len(ops)].a = "feed"
    /\ hist' = Pick(hist, o) /\ kept' = Pick(kept, o) /\ view' = Pick(view, o)
    /\ n' = n
    /\ ops' = Append(ops, [a |-> "reorder", n |-> 0, o |-> o])
Next == Feed \/ Reorder
Spec == Init /\ [][Next]_vars
\* Every query of the last chunk sees through the cache what it would see of the whole.
Enough == \A r \in 1..Len(hist) : \A i \in 0..(n - 1) :
    {view[r][j + 1] : j \in Visible(B, n, Len(view[r]), i)} = {hist[r][j + 1] : j \in Visible(B, n, Len(hist[r]), i)}
Ordered == \A r \in 1..Len(hist) : IsSuffix(view[r], hist[r]) /\ IsSuffix(kept[r], hist[r])
Small == Kind = "window" => \A r \in 1..Len(hist) : Len(kept[r]) < Size
Bound == Len(ops) <= MaxOps
Emit == (Gen /\ Len(ops) > 1 /\ (Len(ops) = MaxOps \/ Long = MaxLen)) => PrintT("GEN|" \o ToJson(ops))
=============================================================================
