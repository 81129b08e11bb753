----------------------------- MODULE ScopesTrace -----------------------------
(* Recorded scope histories of real threads.  Every event carries what each    *)
(* thread saw right after it.                                                  *)
EXTENDS Scopes, Batch

VARIABLE x
vars == <<tid, l, x>>
Threads == 1..Cfg.threads

Apply(y, e) ==
    CASE e.a \in {"enter", "with"} -> Enter(y, e.t, e.s)
      [] e.a \in {"exit", "raise"} -> Leave(y, e.t)
      [] e.a = "default" -> SetDefault(y, e.g, e.meta)
      [] OTHER -> y

\* A tensor made without (with) an explicit type and device.
Made(y, t) == [dtype |-> CurType(y, t), dev |-> CurDevice(y, t)]

Step ==
    LET e == Ev y == Apply(x, e) IN
    /\ Exp("outcome", e.res, IF e.a = "raise" THEN "raised" ELSE "ok")
    /\ \A t \in Threads :
         LET who == "thread " \o ToString(t) o == e.view[t] IN
         /\ \A d \in DOMAIN o.cur : Exp("current gangs of " \o who \o " for " \o d, o.cur[d], Current(y, t, d))
         /\ \A d \in DOMAIN o.def : Exp("default gangs for " \o d, o.def[d], Default(y, d))
         /\ Exp("current gangs of " \o who \o " for its device", o.here, Current(y, t, CurDevice(y, t)))
         /\ Exp("device of " \o who, o.dev, CurDevice(y, t))
         /\ Exp("data type of " \o who, o.dtype, CurType(y, t))
         /\ \A i \in 1..Len(o.made) : Exp("tensor made by " \o who \o " with " \o o.made[i].how, o.made[i].got, Made(y, t))
         /\ \A i \in 1..Len(o.explicit) : Exp("explicitly typed tensor of " \o who, o.explicit[i].got, o.explicit[i].asked)
    /\ x' = y

Init == BatchInit /\ x = InitX(1..Traces[tid].cfg.threads)
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
