------------------------------- MODULE Batch -------------------------------
(* Batch validation of recorded traces: every initial state picks one trace  *)
(* (tid); l is the position of the next event.  Progress per trace is kept   *)
(* in TLC registers and written out by the post-condition, so one TLC run    *)
(* gives a verdict for every trace.                                          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.VT_IN)
NTraces == Len(Traces)

VARIABLES tid, l

Cfg == Traces[tid].cfg
Evs == Traces[tid].ev
Ev  == Evs[l]

ASSUME \A i \in 1..NTraces : TLCSet(i, 0)

BatchInit == tid \in 1..NTraces /\ l = 1
BatchMore == l <= Len(Evs)
BatchStep == l' = l + 1 /\ UNCHANGED tid

\* Names the failing clause of a rejected event.
Rej(name) == PrintT("REJECT|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o name)
Chk(name, cond) == IF cond THEN TRUE ELSE Rej(name) /\ FALSE
Exp(name, got, want) ==
    IF got = want THEN TRUE
    ELSE Rej(name \o ": got " \o ToJson(got) \o ", specification says " \o ToJson(want)) /\ FALSE

Track == IF TLCGet(tid) < l - 1 THEN TLCSet(tid, l - 1) ELSE TRUE
Report == JsonSerialize(IOEnv.VT_OUT, [i \in 1..NTraces |-> TLCGet(i)])
=============================================================================
