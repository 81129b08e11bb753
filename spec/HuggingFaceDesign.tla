-------------------------- MODULE HuggingFaceDesign --------------------------
EXTENDS HuggingFace
CONSTANTS MaxHeads, MaxHalf
VARIABLES fam, heads, head
vars == <<fam, heads, head>>
Init == fam \in Families /\ heads \in 1..MaxHeads /\ head \in {2 * k : k \in 1..MaxHalf}
Next == UNCHANGED vars
RowsAll == 0..((heads * head) - 1)
TypeOK == heads >= 1 /\ head % 2 = 0
(* Nothing is lost or duplicated, and heads stay together.                       *)
Permutation == {Source(head, r) : r \in RowsAll} = RowsAll
Heads == \A r \in RowsAll : Source(head, r) \div head = r \div head
(* What Transformers rotates together at a frequency is what fairseq2 did.       *)
Pairs == \A h \in 0..(heads - 1) : \A k \in 0..((head \div 2) - 1) :
            LET p == CHOOSE q \in Halves(head) : q[1] = k
                s == CHOOSE q \in Neighbours(head) : q[1] = k IN
            /\ Source(head, (h * head) + p[2]) = (h * head) + s[2]
            /\ Source(head, (h * head) + p[3]) = (h * head) + s[3]
RoundTrip == \A r \in RowsAll : Source(head, Back(head, r)) = r /\ Back(head, Source(head, r)) = r
(* Exporting twice is not harmless.                                              *)
NotAnInvolution == head >= 6 => \E r \in RowsAll : Source(head, Source(head, r)) /= r
(* Names stand for one parameter each, in both directions.                       *)
OneToOne == \A p, q \in Names(fam) : (p[1] = q[1]) <=> (p[2] = q[2])
Spec == Init /\ [][Next]_vars
===============================================================================
