---------------------------- MODULE ContainerTrace ----------------------------
(* Histories of a real container. An event is a registration, a look-up or the *)
(* use of a handle, with its result and the objects that were made by it.      *)
EXTENDS Container, Batch
VARIABLE c
vars == <<tid, l, c>>
R == Cfg.regs

MadeSince(d) == SubSeq(d.made, Len(c.made) + 1, Len(d.made))
What(e) == e.op \o (IF e.op = "use" THEN " of handle " \o ToString(e.j) \o " of object " \o ToString(e.id) ELSE " of " \o e.t \o "/" \o e.k)
Outcome(e, x, ids) ==
    /\ Exp("result of " \o What(e), e.res, [s |-> x[2].s, id |-> x[2].id, t |-> x[2].t, k |-> x[2].k, path |-> x[2].path, reg |-> x[2].reg])
    /\ IF Bad(x[2]) THEN TRUE ELSE Exp("objects of " \o What(e), e.ids, ids)
    /\ Exp("objects made by " \o What(e), e.made, MadeSince(x[1]))
    /\ c' = [x[1] EXCEPT !.frozen = TRUE]
Step ==
    LET e == Ev IN
    CASE e.op = "register" ->
           LET ok == Accepts(c, R, e.i) IN
           /\ Exp("registration " \o ToString(e.i) \o " of " \o R[e.i].t \o "/" \o R[e.i].k, e.ok, ok)
           /\ c' = IF ok THEN Register(c, e.i) ELSE c
      [] e.op = "resolve" -> Outcome(e, Resolve(c, R, e.t, e.k), <<>>)
      [] e.op = "maybe" -> Outcome(e, Maybe(c, R, e.t, e.k), <<>>)
      [] e.op = "all" -> LET x == All(c, R, e.t, e.k, 1, <<>>) IN Outcome(e, x, x[3])
      [] e.op = "use" -> LET x == Handle(c, R, e.id, e.j) IN Outcome(e, x, x[3])
      [] e.op = "keys" -> Exp("keys of " \o e.t, {e.keys[i] : i \in 1..Len(e.keys)}, Keys(c, R, e.coll, e.t)) /\ UNCHANGED c
      \* An object is made outside of the container, from what it holds.
      [] e.op = "wire" -> Outcome(e, Wire(c, R, e.i), <<>>)
      [] OTHER -> Rej(ToJson(e)) /\ FALSE /\ UNCHANGED c
Init == BatchInit /\ c = InitC(Traces[tid].cfg.regs)
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
