------------------------------ MODULE BeamDesign ------------------------------
(* Beam search over every model: the log probabilities of each step are        *)
(* chosen as the search gets there.                                            *)
EXTENDS Generation
CONSTANTS V, B, MinLen, MaxLen, Ban, Pad
VARIABLES r, dropped
vars == <<r, dropped>>
\* Log probabilities without ties: a permutation of weights, apart for every entry.
Perms == {p \in [1..V -> 1..V] : \A i, j \in 1..V : i # j => p[i] # p[j]}
C(f) == [V |-> V, B |-> B, eos |-> 1, pad |-> Pad, unk |-> None, pen |-> 0, min |-> MinLen, max |-> MaxLen,
         procs |-> IF Ban = 0 THEN <<>> ELSE <<[k |-> "ngram", n |-> Ban, seqs |-> <<>>]>>, lp |-> f]
\* Every entry looks its own row up, whatever its hash.
Hashed(beam) == [i \in 1..Len(beam) |-> [beam[i] EXCEPT !.h = i - 1]]
Init == r = [beam |-> <<[Entry(0, 2) EXCEPT !.h = 0]>>, hyps |-> <<>>, hist |-> <<>>, vague |-> FALSE] /\ dropped = {}
Step ==
    /\ r.beam # <<>>
    /\ \E f \in [1..Len(r.beam) -> Perms] :
         LET c == C([i \in 1..Len(r.beam) |-> [v \in 1..V |-> -(f[i][v] * f[i][v] * 10 + i)]])
             b == [r EXCEPT !.beam = Hashed(@)]
             n == BeamStep(c, b, 0)
             last == Len(r.beam[1].t) = MaxLen - 1
             cands == Candidates(c, b.beam, last, 1)
         IN /\ r' = [n EXCEPT !.hist = <<>>]
            /\ dropped' = IF n.beam = <<>> THEN {}
                          ELSE {x.s : x \in {cands[k] : k \in {j \in 1..Len(cands) : cands[j].v # 1 /\
                                Append(b.beam[cands[j].i].t, cands[j].v) \notin {n.beam[q].t : q \in 1..Len(n.beam)}}}}
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Texts(q) == {q[i].t : i \in 1..Len(q)}
Bounded == Len(r.beam) <= B /\ Len(r.hyps) <= B
Apart == Cardinality(Texts(r.beam)) = Len(r.beam) /\ Cardinality(Texts(r.hyps)) = Len(r.hyps)
Ended(e) == /\ e.t[1] = 2 /\ e.t[Len(e.t)] = 1 /\ \A i \in 2..(Len(e.t) - 1) : e.t[i] \notin {1, Pad}
            /\ Len(e.t) \in Minimum(MinLen, MaxLen)..MaxLen
            /\ Ban > 0 => ~Repeats(SubSeq(e.t, 1, Len(e.t) - 1), Ban)
Proper == /\ \A i \in 1..Len(r.hyps) : Ended(r.hyps[i])
          /\ \A i \in 1..Len(r.beam) : \A k \in 2..Len(r.beam[i].t) : r.beam[i].t[k] \notin {1, Pad}
\* Scores only fall, and nothing better than what goes on was left behind.
Falling == \A i \in 1..Len(r.beam) : \A k \in 2..Len(r.beam[i].s) : r.beam[i].s[k] < r.beam[i].s[k - 1]
BestGoOn == \A i \in 1..Len(r.beam) : \A s \in dropped : r.beam[i].s[Len(r.beam[i].s)] >= s
Result == r.beam = <<>> => Len(r.hyps) >= 1
Finishes == <>(r.beam = <<>>)
=============================================================================
