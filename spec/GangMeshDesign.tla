--------------------------- MODULE GangMeshDesign ---------------------------
(* The gangs of each kind partition the job, for every topology.              *)
EXTENDS GangMesh
CONSTANT MaxSize
VARIABLES n, tp, intra
Init == /\ n \in 1..MaxSize /\ tp \in 1..n /\ ValidTp(n, tp)
        /\ intra \in 0..(n \div tp) /\ (intra > 0 => (n \div tp) % intra = 0)
Next == UNCHANGED <<n, tp, intra>>
Spec == Init /\ [][Next]_<<n, tp, intra>>

Ranks == 0..(n - 1)
Rng(q) == {q[i] : i \in 1..Len(q)}
G(k, r) == Gang(k, n, tp, intra, r)
Partition ==
    \A k \in Kinds : \A r \in Ranks :
        /\ r \in Rng(G(k, r))
        /\ \A q \in Rng(G(k, r)) : G(k, q) = G(k, r)
        /\ \A i \in 1..Len(G(k, r)) - 1 : G(k, r)[i] < G(k, r)[i + 1]
Product == \A r \in Ranks :
        /\ Len(G("tp", r)) * Len(G("dp", r)) = n
        /\ Len(G("sdp", r)) * Len(G("rdp", r)) = Len(G("dp", r))
Crossing == \A r \in Ranks :
        /\ Rng(G("tp", r)) \cap Rng(G("dp", r)) = {r}
        /\ Rng(G("sdp", r)) \cap Rng(G("rdp", r)) = {r}
        /\ Rng(G("sdp", r)) \cup Rng(G("rdp", r)) \subseteq Rng(G("dp", r))
Adjacent == \A r \in Ranks : \A i \in 1..Len(G("tp", r)) - 1 : G("tp", r)[i + 1] = G("tp", r)[i] + 1
CoordinatorFirst == \A k \in Kinds : IndexOf(G(k, 0), 0) = 0
=============================================================================
