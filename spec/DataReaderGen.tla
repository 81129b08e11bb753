---------------------------- MODULE DataReaderGen ----------------------------
(* Histories of a group of readers; also checks the laws of lock-step reading. *)
EXTENDS DataReader, Json
CONSTANTS MaxN, MaxLen, MaxK, Depth, Emitting, Ops
VARIABLES p, y, marks, out, hist
vars == <<p, y, marks, out, hist>>

Init == /\ p \in UNION {[n : {n}, len : [1..n -> 0..MaxLen], k : 1..MaxK, drop : BOOLEAN, sync : BOOLEAN, last : BOOLEAN] : n \in 1..MaxN}
        /\ y = InitY(p) /\ marks = <<>> /\ hist = <<>>
        /\ out = [r \in 1..p.n |-> <<>>]   \* batches given out since the beginning of the pass
Log(a) == hist' = Append(hist, a)
RRead == /\ y' = Read(p, y) /\ Log([a |-> "read"]) /\ UNCHANGED <<p, marks>>
         /\ out' = [r \in 1..p.n |-> IF Ends(p, y, r) THEN out[r] ELSE out[r] \o Got(p, y, r)]
RReset == /\ "reset" \in Ops /\ y' = Reset(p, y) /\ Log([a |-> "reset"]) /\ out' = [r \in 1..p.n |-> <<>>] /\ UNCHANGED <<p, marks>>
RSave == /\ "save" \in Ops /\ Len(marks) < 2 /\ marks' = Append(marks, Mark(p, y)) /\ Log([a |-> "save"]) /\ UNCHANGED <<p, y, out>>
RLoad == /\ "save" \in Ops /\ \E i \in 1..Len(marks), f \in BOOLEAN : y' = Restore(p, y, marks[i]) /\ Log([a |-> "load", i |-> i, fresh |-> f])
         /\ UNCHANGED <<p, marks>>
         /\ out' = [r \in 1..p.n |-> <<>>]
Next == Len(hist) < Depth /\ (RRead \/ RReset \/ RSave \/ RLoad)
Spec == Init /\ [][Next]_vars

\* Laws (for histories of reads only, so that `out` is a whole pass).
ReadsOnly == Ops = {}
LockStep == p.sync /\ ~p.last => \A a, b \in 1..p.n : Len(out[a]) = Len(out[b]) /\ y[a].eod = y[b].eod
TogetherEnd == p.sync => \A a, b \in 1..p.n : y[a].eod = y[b].eod
InOrder == ReadsOnly => \A r \in 1..p.n : out[r] = [i \in 1..Len(out[r]) |-> i]
Whole(r) == IF p.drop THEN (p.len[r] \div p.k) * p.k ELSE p.len[r]
Shortest == CHOOSE m \in {Whole(r) : r \in 1..p.n} : \A r \in 1..p.n : m <= Whole(r)
\* A finished pass has given out exactly what it should.
Complete == ReadsOnly => \A r \in 1..p.n : y[r].eod =>
              Len(out[r]) = (IF Shares(p) /\ ~p.last THEN Shortest ELSE Whole(r))
Emit == Emitting /\ Len(hist) = Depth => PrintT("GEN|" \o ToJson([p |-> p, h |-> hist]))
=============================================================================
