------------------------- MODULE ModuleHeapTrace -------------------------
EXTENDS ModuleHeap, Batch
VARIABLE h
vars == <<tid, l, h>>
\* Recorded heaps list their tensors.
Heap(x) == [mods |-> x.mods, ten |-> [t \in {x.ten[i].t : i \in 1..Len(x.ten)} |-> LET i == CHOOSE i \in 1..Len(x.ten) : x.ten[i].t = t IN
              [dev |-> x.ten[i].dev, val |-> x.ten[i].val, rg |-> x.ten[i].rg, g |-> x.ten[i].g]]]
Old == DOMAIN h.ten
Compare(want, o) ==
    /\ Chk("slots and children", SameShape(want, o))
    /\ Chk("tensors that are one, and which are new: got " \o ToJson(o.mods) \o ", specification says " \o ToJson(want.mods), SameIds(want, o, Old))
    /\ \A p \in PairsOf(want, o, DOMAIN want.mods) :
          IF SameAttr(want.ten[p[1]], o.ten[p[2]]) THEN TRUE
          ELSE Rej("tensor " \o ToString(p[2]) \o " of " \o ToJson(o.mods) \o ": got " \o ToJson(o.ten[p[2]]) \o ", specification says " \o ToJson(want.ten[p[1]])) /\ FALSE
After(want) == Compare(want, Heap(Ev.after)) /\ h' = Heap(Ev.after)
Fails(kinds) == Chk("error: got " \o Ev.err \o ", specification says one of " \o ToJson(kinds), Ev.err \in kinds)
Names(s) == [i \in 1..Len(s) |-> [n |-> s[i].n, m |-> s[i].m]]
Step ==
    LET e == Ev IN
    CASE e.op = "take" -> h' = Heap(e.after)
      [] e.op = "visit" ->
            /\ Fails({""})
            /\ Exp("modules visited", e.res, IF e.recurse THEN Names(Visit(h.mods, e.root, e.post, {e.memo[i] : i \in 1..Len(e.memo)})) ELSE <<[n |-> <<>>, m |-> e.root]>>)
            /\ After(h)
      [] e.op = "device" -> IF Mixed(h, e.root) THEN Fails({"ValueError"}) /\ After(h) ELSE Fails({""}) /\ After(ToDevice(h, e.root, e.dev))
      [] e.op = "empty" -> Fails({""}) /\ After(ToEmpty(h, e.root, e.dev, e.recurse))
      [] e.op = "reset" -> Fails({""}) /\ After(ResetAll(h, IF e.recurse THEN Order(h.mods, e.root) ELSE <<e.root>>))
      [] e.op = "resetnp" -> Fails({""}) /\ After(ResetNP(h, IF e.recurse THEN Order(h.mods, e.root) ELSE <<e.root>>))
      [] e.op = "infer" ->
            /\ Fails({""})
            /\ LET d == DevOf(h, IF e.recurse THEN Below(h.mods, e.root) ELSE {e.root}) IN
               Exp("device", e.res, IF Cardinality(d) = 1 THEN CHOOSE x \in d : TRUE ELSE "none")
            /\ After(h)
      [] e.op = "share" -> IF ShareOk(h, e.src, e.root) THEN Fails({""}) /\ After(Share(h, e.src, e.root)) ELSE Fails({"ValueError"}) /\ After(h)
      [] e.op = "freeze" -> Fails({""}) /\ After(Freeze(h, e.root, e.value))
      [] e.op = "state" ->
            IF StateOk(h, e.root, e.st, e.strict) THEN Fails({""}) /\ After(LoadState(h, e.root, e.st))
            ELSE /\ Fails({"RuntimeError", "StateDictError"})
                 \* What was given for parts of the module may have been loaded.
                 /\ After([h EXCEPT !.ten = [t \in DOMAIN @ |-> IF h.ten[t].dev = "meta" THEN @[t] ELSE [@[t] EXCEPT !.val = ANY]]])
      [] e.op = "ckpt" ->
            IF CkptOk(h, e.root, e.st) THEN Fails({""}) /\ After(LoadCkpt(h, e.root, e.st))
            ELSE /\ Fails({"ModelCheckpointMismatchError"})
                 /\ After([h EXCEPT !.ten = [t \in DOMAIN @ |-> IF h.ten[t].dev = "meta" THEN @[t] ELSE [@[t] EXCEPT !.val = ANY]]])
\* Syncing, seen from all ranks: what they held before and after.
Sync ==
    LET e == Ev
        ready(r) == ToDevice(Heap(e.before[r]), e.root, "cpu")
        src == ready(e.src + 1)
        synced(r) == Synced(ready(r), e.root, {e.skip[i] : i \in 1..Len(e.skip)}, e.np)
        \* The same places hold the same tensors on all ranks.
        twin(r, t) == CHOOSE u \in DOMAIN src.ten : \E p \in PairsOf(ready(r), src, Below(src.mods, e.root)) : p = <<t, u>>
        want(r) == [ready(r) EXCEPT !.ten = [t \in DOMAIN @ |-> IF t \in synced(r) THEN [@[t] EXCEPT !.val = src.ten[twin(r, t)].val] ELSE @[t]]] IN
    /\ Fails({""})
    /\ \A r \in 1..Len(e.before) :
         LET o == Heap(e.after[r]) IN
         /\ Chk("slots and children", SameShape(want(r), o))
         /\ Chk("tensors that are one, on rank " \o ToString(r - 1) \o ": got " \o ToJson(o.mods) \o ", specification says " \o ToJson(want(r).mods),
                SameIds(want(r), o, {e.before[r].ten[i].t : i \in 1..Len(e.before[r].ten)}))
         /\ \A p \in PairsOf(want(r), o, DOMAIN o.mods) :
              IF SameAttr(want(r).ten[p[1]], o.ten[p[2]]) THEN TRUE
              ELSE Rej("tensor " \o ToString(p[2]) \o " on rank " \o ToString(r - 1) \o " of " \o ToJson(o.mods) \o ": got " \o ToJson(o.ten[p[2]])
                       \o ", specification says " \o ToJson(want(r).ten[p[1]])) /\ FALSE
    /\ UNCHANGED h
Init == BatchInit /\ h = IF Len(Evs) > 0 /\ Evs[1].op = "start" THEN Heap(Evs[1].after) ELSE [mods |-> <<>>, ten |-> <<>>]
Next == BatchMore /\ (IF Ev.op = "start" THEN UNCHANGED h ELSE IF Ev.op = "sync" THEN Sync ELSE Step) /\ BatchStep
Spec == Init /\ [][Next]_vars
============================================================================
