------------------------------- MODULE RngTrace -------------------------------
(* Histories of real generators. What is drawn is a function of the stream and *)
(* of what was drawn before; different streams, and different places of one,   *)
(* give different numbers.                                                     *)
EXTENDS Rng, Batch
VARIABLES b, seen
vars == <<tid, l, b, seen>>
IsPrefix(a, c) == Len(a) <= Len(c) /\ SubSeq(c, 1, Len(a)) = a
Apart(s, t) == s.st # t.st \/ (s.h # t.h /\ (IsPrefix(s.h, t.h) \/ IsPrefix(t.h, s.h)))
Ok(e, want) == Exp("outcome of " \o e.a \o " " \o e.x, e.res, want)
OnDraw ==
    LET e == Ev s == b.gens[e.g] IN
    /\ \A d \in seen : d.k = e.x =>
         /\ (d.s = s => Exp("draw " \o e.x \o " from generator " \o ToString(e.g) \o ", as at event " \o ToString(d.l), e.v, d.v))
         /\ (Apart(d.s, s) /\ e.x \in {"int", "randn"} => Chk("the draw from generator " \o ToString(e.g) \o " repeats event " \o ToString(d.l), e.v # d.v))
    /\ seen' = seen \cup {[s |-> s, k |-> e.x, v |-> e.v, l |-> l]}
    /\ b' = Draw(b, e.g, e.x)
Step ==
    LET e == Ev IN
    CASE e.a = "draw" -> OnDraw
      [] e.a = "manual" -> Ok(e, IF Fits(e.x) THEN "ok" ELSE "ValueError") /\ b' = (IF Fits(e.x) THEN Manual(b, e.x) ELSE b) /\ UNCHANGED seen
      [] e.a = "seed" -> Ok(e, "ok") /\ b' = Seed(b) /\ UNCHANGED seen
      [] e.a = "enter" -> Ok(e, IF Fits(e.x) THEN "ok" ELSE "ValueError") /\ b' = (IF Fits(e.x) THEN Enter(b, e.x) ELSE b) /\ UNCHANGED seen
      [] e.a \in {"exit", "raise"} -> Ok(e, IF e.a = "exit" THEN "ok" ELSE "raised") /\ b' = Leave(b) /\ UNCHANGED seen
      [] e.a = "save" -> Ok(e, "ok") /\ b' = Save(b) /\ UNCHANGED seen
      [] e.a = "load" -> Ok(e, "ok") /\ b' = Load(b, e.g) /\ UNCHANGED seen
      \* A state that does not fit is refused.
      [] e.a = "badload" -> Ok(e, "StateDictError") /\ UNCHANGED <<b, seen>>
      [] OTHER -> Rej(ToJson(e)) /\ FALSE /\ UNCHANGED <<b, seen>>
Init == BatchInit /\ b = InitB(Traces[tid].cfg.n) /\ seen = {}
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
