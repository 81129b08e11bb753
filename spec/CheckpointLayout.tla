--------------------------- MODULE CheckpointLayout ---------------------------
(* Which rank writes and which rank reads which file of a checkpoint, for     *)
(* every topology of up to MaxSize ranks.  Every file a rank will read is     *)
(* written by exactly one rank, and by one in the same position.              *)
EXTENDS Naturals, FiniteSets

CONSTANT MaxSize

VARIABLES size, tp, intra   \* intra: size of a sharded group (1: plain data parallel)

Init == /\ size \in 1..MaxSize
        /\ tp \in 1..size /\ size % tp = 0
        /\ intra \in 1..(size \div tp) /\ (size \div tp) % intra = 0
Next == UNCHANGED <<size, tp, intra>>
Spec == Init /\ [][Next]_<<size, tp, intra>>

Ranks == 0..(size - 1)
Tp(r) == r % tp
Dp(r) == r \div tp
Sdp(r) == Dp(r) % intra
Rdp(r) == Dp(r) \div intra

\* kind -> (file a rank reads), (whether a rank writes its file)
Kinds == {"trainer", "model", "optimizer", "data_reader"}
File(k, r) == CASE k = "trainer" -> <<k, r>>
                [] k \in {"model", "optimizer"} -> <<k, Tp(r), Sdp(r)>>
                [] k = "data_reader" -> <<k, Dp(r)>>
Writes(k, r) == CASE k = "trainer" -> TRUE
                  [] k \in {"model", "optimizer"} -> Rdp(r) = 0
                  [] k = "data_reader" -> Tp(r) = 0

OneWriter ==
    \A k \in Kinds, r \in Ranks :
        Cardinality({w \in Ranks : Writes(k, w) /\ File(k, w) = File(k, r)}) = 1
\* The first rank of each gang creates the directories; there is one for each.
Positions == Cardinality({<<Tp(r), Sdp(r), Rdp(r)>> : r \in Ranks}) = size
=============================================================================
