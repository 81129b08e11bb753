------------------------------ MODULE ScopesGen ------------------------------
(* Scope histories of two threads: the scoping rules are checked on all of     *)
(* them, and each one is printed for replay.                                   *)
EXTENDS Scopes, Json

CONSTANTS Threads, Depth, Gangs, Types, Emitting
VARIABLES x, hist, saved
vars == <<x, hist, saved>>

Scopes_ == {[k |-> "gang", g |-> g, meta |-> m] : g \in Gangs, m \in BOOLEAN}
             \cup {[k |-> "dev", d |-> d] : d \in (IF Gangs = {} THEN {"cpu", "meta"} ELSE Devices)}
             \cup {[k |-> "dtype", d |-> d] : d \in Types}
\* A Gangs object is itself a scope (never for the meta device).
WithObj == {[k |-> "gang", g |-> g, meta |-> FALSE] : g \in Gangs}

Init == x = InitX(Threads) /\ hist = <<>> /\ saved = [t \in Threads |-> <<>>]
Log(a) == hist' = Append(hist, a)
Memo(t) == saved' = [saved EXCEPT ![t] = Append(@, [v |-> View(x, t), deft |-> x.deft])]
Forget(t) == saved' = [saved EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]

EnterOf(t, s) == x' = Enter(x, t, s) /\ Memo(t) /\ Log([a |-> "enter", t |-> t, s |-> s])
EnterObj(t, s) == x' = Enter(x, t, s) /\ Memo(t) /\ Log([a |-> "with", t |-> t, s |-> s])
LeaveOf(t, how) == x.scopes[t] # <<>> /\ x' = Leave(x, t) /\ Forget(t) /\ Log([a |-> how, t |-> t])
Deft(g, m) == x' = SetDefault(x, g, m) /\ Log([a |-> "default", g |-> g, meta |-> m]) /\ UNCHANGED saved

Next == /\ Len(hist) < Depth
        /\ \/ \E t \in Threads, s \in Scopes_ : EnterOf(t, s)
           \/ \E t \in Threads, s \in WithObj : EnterObj(t, s)
           \/ \E t \in Threads, how \in {"exit", "raise"} : LeaveOf(t, how)
           \/ \E g \in Gangs, m \in BOOLEAN : Deft(g, m)
Spec == Init /\ [][Next]_vars

\* Leaving a scope restores what was current before it was entered.
Restores == [][\A t \in Threads :
    Len(x'.scopes[t]) < Len(x.scopes[t]) /\ x.deft = saved[t][Len(saved[t])].deft
        => View(x', t) = saved[t][Len(saved[t])].v]_vars
\* What one thread does to its scopes is invisible to all others.
Isolated == [][\A t, u \in Threads :
    t # u /\ x'.scopes[t] # x.scopes[t] => View(x', u) = View(x, u)]_vars
OnDevice == \A t \in Threads, d \in Devices :
    LET c == Current(x, t, d) IN c[1] = "gang" => DevOf(c[2]) = d \/ d = "meta"

Emit == Emitting /\ Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
=============================================================================
