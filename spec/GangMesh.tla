------------------------------ MODULE GangMesh ------------------------------
(* Positions of the processes of a job in the parallel topology.  Members of   *)
(* a gang are listed in rank order of that gang, as ranks of the whole job.    *)
(* intra = 0: fully sharded; intra = 1: plain (replicated) data parallel.      *)
EXTENDS Naturals, Sequences, FiniteSets

Seqn(n, F(_)) == [i \in 1..n |-> F(i - 1)]

TpOf(n, tp, r)   == Seqn(tp, LAMBDA i : (r \div tp) * tp + i)
DpOf(n, tp, r)   == Seqn(n \div tp, LAMBDA i : i * tp + (r % tp))
\* dp rank k of r's data parallel gang, as a rank of the job
DpMember(n, tp, r, k) == k * tp + (r % tp)
SdpOf(n, tp, s, r) == LET b == ((r \div tp) \div s) * s
                      IN  Seqn(s, LAMBDA i : DpMember(n, tp, r, b + i))
RdpOf(n, tp, s, r) == LET o == (r \div tp) % s
                      IN  Seqn((n \div tp) \div s, LAMBDA i : DpMember(n, tp, r, i * s + o))
Shard(n, tp, intra) == IF intra = 0 THEN n \div tp ELSE intra

Gang(kind, n, tp, intra, r) ==
    LET s == Shard(n, tp, intra) IN
    CASE kind = "root" -> Seqn(n, LAMBDA i : i)
      [] kind = "tp"  -> TpOf(n, tp, r)
      [] kind = "dp"  -> DpOf(n, tp, r)
      [] kind = "sdp" -> SdpOf(n, tp, s, r)
      [] kind = "rdp" -> RdpOf(n, tp, s, r)
      [] kind = "pp"  -> <<r>>
Kinds == {"root", "tp", "dp", "sdp", "rdp", "pp"}

RECURSIVE IndexOf(_, _)
IndexOf(q, x) == IF Head(q) = x THEN 0 ELSE 1 + IndexOf(Tail(q), x)

ValidTp(n, tp) == tp >= 1 /\ n % tp = 0
ValidIntra(n, tp, intra) == intra > 1 /\ (n \div tp) % intra = 0
ValidSub(n, ranks) == /\ \A i \in 1..Len(ranks) : ranks[i] \in 0..(n - 1)
                      /\ \A i, j \in 1..Len(ranks) : i # j => ranks[i] # ranks[j]

=============================================================================
