---------------------------- MODULE GangMeshTrace ----------------------------
(* Gangs made by the real code.  One event per process and topology:           *)
(* Ev.gangs[kind] = [rank |-> own rank, size |-> , members |-> ] (members may be*)
(* empty when the implementation cannot tell).                                 *)
EXTENDS Batch, Integers, FiniteSets

M == INSTANCE GangMesh

VARIABLE seen   \* process -> list of sub-gangs it asked for, in order
vars == <<tid, l, seen>>

KindSeq == <<"root", "tp", "dp", "sdp", "rdp", "pp">>

Place ==
    LET e == Ev
        want(k) == M!Gang(k, e.n, e.tp, e.intra, e.r)
    IN  /\ e.op = "place"
        /\ Exp("outcome", e.res, "ok")
        /\ \A i \in 1..Len(KindSeq) :
             LET k == KindSeq[i] w == want(k) g == e.gangs[k] IN
             /\ Exp("size of the " \o k \o " gang", g.size, Len(w))
             /\ Exp("rank in the " \o k \o " gang", g.rank, M!IndexOf(w, e.r))
             /\ IF g.members = <<>> THEN TRUE ELSE Exp("members of the " \o k \o " gang", g.members, w)
        \* Creating a sub-gang is collective: every process asks for the same ones,
        \* in the same order.
        /\ IF seen = <<>> THEN TRUE ELSE Exp("order of sub-gang creation", e.calls, seen[1])
        /\ \A i \in 1..Len(e.calls) : Chk("valid sub-gang", \A j \in 1..Len(e.calls[i]) : M!ValidSub(e.calls[i][j][1], e.calls[i][j][2]))
        /\ seen' = IF seen = <<>> THEN <<e.calls>> ELSE seen

Refuse ==
    LET e == Ev
        bad == ~M!ValidTp(e.n, e.tp) \/ (e.intra # 0 /\ ~M!ValidIntra(e.n, e.tp, e.intra))
    IN  /\ e.op = "sizes"
        /\ Exp("sizes are refused", e.res = "refused", bad)
        /\ UNCHANGED seen

Sub ==
    LET e == Ev IN
    /\ e.op = "sub"
    /\ IF ~M!ValidSub(e.n, e.ranks) THEN Exp("outcome", e.res, "refused")
       ELSE IF \E i \in 1..Len(e.ranks) : e.ranks[i] = e.r
            THEN Exp("own place in the sub-gang", e.res, <<M!IndexOf(e.ranks, e.r), Len(e.ranks)>>)
            ELSE Exp("a process outside the sub-gang", e.res, "none")
    /\ UNCHANGED seen

\* The coordinator of the job has to be the first of every gang.
Bundle ==
    LET e == Ev IN
    /\ e.op = "bundle"
    /\ Exp("gangs are refused", e.res = "refused", e.root = 0 /\ (e.dp # 0 \/ e.tp # 0 \/ e.pp # 0))
    /\ UNCHANGED seen

Init == BatchInit /\ seen = <<>>
Next == BatchMore /\ BatchStep /\ (Place \/ Refuse \/ Sub \/ Bundle)
Spec == Init /\ [][Next]_vars
=============================================================================
