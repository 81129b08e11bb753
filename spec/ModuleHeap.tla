---------------------------- MODULE ModuleHeap ----------------------------
(* Modules, the tensors they hold, and what creating, moving, sharing,      *)
(* loading and syncing them does.  A heap has modules and tensors:          *)
(*   mods[m] = [own |-> <<[n, t, k]..>>, kids |-> <<[n, m]..>>, rs, rn]     *)
(* a slot has a name, a tensor and a kind ("p" parameter, "b" persistent or *)
(* "n" other buffer); a child may be absent (0); rs and rn tell whether the *)
(* module can reset itself, or its other buffers.                           *)
(*   ten[t] = [dev, val, rg, g]                                             *)
(* with g the tensor of the gradient, if any.  What is one tensor in two    *)
(* places must stay one tensor in these places, whatever is done.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
ANY == 1000000

Cat(p, n) == Append(p, n)
\* Modules below m (and m) with their names, each once, children first or last, in the order of the children.
RECURSIVE Walk(_, _, _, _, _), WalkKids(_, _, _, _, _, _)
Walk(mods, m, pre, post, memo) ==
    IF m = 0 THEN [out |-> <<[n |-> pre, m |-> 0]>>, memo |-> memo]
    ELSE IF m \in memo THEN [out |-> <<>>, memo |-> memo]
    ELSE LET k == WalkKids(mods, mods[m].kids, 1, pre, post, memo \cup {m}) me == <<[n |-> pre, m |-> m]>> IN
         [out |-> IF post THEN k.out \o me ELSE me \o k.out, memo |-> k.memo]
WalkKids(mods, kids, i, pre, post, memo) ==
    IF i > Len(kids) THEN [out |-> <<>>, memo |-> memo]
    ELSE LET a == Walk(mods, kids[i].m, Cat(pre, kids[i].n), post, memo)
             b == WalkKids(mods, kids, i + 1, pre, post, a.memo) IN
         [out |-> a.out \o b.out, memo |-> b.memo]
Visit(mods, m, post, memo) == SelectSeq(Walk(mods, m, <<>>, post, memo).out, LAMBDA x : x.m # 0)
Order(mods, m) == LET v == Visit(mods, m, TRUE, {}) IN [i \in 1..Len(v) |-> v[i].m]
Below(mods, m) == {Order(mods, m)[i] : i \in 1..Len(Order(mods, m))}
\* Every path, through shared modules as often as there are ways to them, own slots first.
RECURSIVE Paths(_, _, _), PathKids(_, _, _, _)
Paths(mods, m, pre) == <<[n |-> pre, m |-> m]>> \o (IF m = 0 THEN <<>> ELSE PathKids(mods, mods[m].kids, 1, pre))
PathKids(mods, kids, i, pre) == IF i > Len(kids) THEN <<>> ELSE Paths(mods, kids[i].m, Cat(pre, kids[i].n)) \o PathKids(mods, kids, i + 1, pre)

Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Held(h, m) == {h.mods[m].own[i].t : i \in 1..Len(h.mods[m].own)}
HeldBy(h, ms) == UNION {Held(h, m) : m \in ms}
Devs(h, m) == {h.ten[t].dev : t \in Held(h, m)}
DevOf(h, ms) == LET d == UNION {Devs(h, m) : m \in ms} IN IF d = {} THEN {"cpu"} ELSE d

\* The tensors of the modules ms, and their gradients, become others, on the device d.
MaxId(h) == IF DOMAIN h.ten = {} THEN 0 ELSE CHOOSE x \in DOMAIN h.ten : \A y \in DOMAIN h.ten : y <= x
Move(h, ms, d, copy) ==
    LET old == HeldBy(h, ms) new(t) == MaxId(h) + t
        all == old \cup ({h.ten[t].g : t \in old} \ {0})
        moved(t) == [h.ten[t] EXCEPT !.dev = d, !.val = IF d = "meta" THEN 0 ELSE IF copy THEN @ ELSE ANY, !.g = IF @ = 0 THEN 0 ELSE new(@)] IN
    [mods |-> [m \in DOMAIN h.mods |-> IF m \notin ms THEN h.mods[m] ELSE [h.mods[m] EXCEPT !.own = [i \in 1..Len(@) |-> [@[i] EXCEPT !.t = new(@)]]]],
     ten |-> [t \in DOMAIN h.ten \cup {new(x) : x \in all} |-> IF t \in DOMAIN h.ten THEN h.ten[t] ELSE moved(t - MaxId(h))]]

\* What resetting writes: a number that tells the module and the slot.
ResetVal(m, i) == 1000 * m + i
Put(h, t, v) == IF h.ten[t].dev = "meta" THEN h ELSE [h EXCEPT !.ten[t].val = v]
RECURSIVE PutOwn(_, _, _, _)
PutOwn(h, m, i, kinds) ==
    IF i > Len(h.mods[m].own) THEN h
    ELSE PutOwn(IF h.mods[m].own[i].k \in kinds THEN Put(h, h.mods[m].own[i].t, ResetVal(m, i)) ELSE h, m, i + 1, kinds)
RECURSIVE ResetAll(_, _), ResetNP(_, _)
ResetAll(h, ms) == IF ms = <<>> THEN h ELSE ResetAll(IF h.mods[Head(ms)].rs THEN PutOwn(h, Head(ms), 1, {"p", "b", "n"}) ELSE h, Tail(ms))
ResetNP(h, ms) == IF ms = <<>> THEN h ELSE ResetNP(IF h.mods[Head(ms)].rn THEN PutOwn(h, Head(ms), 1, {"n"}) ELSE h, Tail(ms))

\* To a device: what is there already stays as it is; what had no content is reset.
Mixed(h, root) == \E m \in Below(h.mods, root) : Cardinality(Devs(h, m)) > 1
ToDevice(h, root, d) ==
    LET todo == SelectSeq(Order(h.mods, root), LAMBDA m : Devs(h, m) # {} /\ Devs(h, m) # {d})
        h2 == Move(h, Range(todo), d, TRUE)
        bare == SelectSeq(todo, LAMBDA m : Devs(h, m) = {"meta"}) IN
    IF Mixed(h, root) THEN h ELSE ResetAll([h2 EXCEPT !.ten = [t \in DOMAIN @ |-> IF \E m \in Range(bare) : \E u \in Held(h2, m) : t \in {u, h2.ten[u].g} THEN [@[t] EXCEPT !.val = ANY] ELSE @[t]]], bare)

ToEmpty(h, root, d, recurse) == Move(h, IF recurse THEN Below(h.mods, root) ELSE {root}, d, FALSE)

\* Names with tensors, a tensor once: parameters, then buffers.
RECURSIVE Dedup(_, _)
Dedup(s, seen) == IF s = <<>> THEN <<>> ELSE IF Head(s).t \in seen THEN Dedup(Tail(s), seen) ELSE <<Head(s)>> \o Dedup(Tail(s), seen \cup {Head(s).t})
Named(h, root, kinds) ==
    LET v == Visit(h.mods, root, FALSE, {}) IN
    Dedup(Flat([i \in 1..Len(v) |-> LET own == SelectSeq(h.mods[v[i].m].own, LAMBDA x : x.k \in kinds) IN [j \in 1..Len(own) |-> [n |-> Cat(v[i].n, own[j].n), t |-> own[j].t]]]), {})
AllNamed(h, root) == Named(h, root, {"p"}) \o Named(h, root, {"b", "n"})
ShareOk(h, src, tgt) ==
    LET a == AllNamed(h, src) b == AllNamed(h, tgt) IN
    Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].n = b[i].n /\ h.ten[a[i].t].g = 0 /\ h.ten[b[i].t].g = 0
Share(h, src, tgt) ==
    LET a == AllNamed(h, src) b == AllNamed(h, tgt)
        to(t) == LET i == CHOOSE i \in 1..Len(b) : b[i].t = t IN a[i].t
        ms == Below(h.mods, tgt) IN
    [h EXCEPT !.mods = [m \in DOMAIN @ |-> IF m \notin ms THEN @[m] ELSE [@[m] EXCEPT !.own = [i \in 1..Len(@) |-> [@[i] EXCEPT !.t = to(@)]]]]]

Freeze(h, root, value) ==
    LET ts == {x.t : x \in Range(Named(h, root, {"p"}))} IN
    [h EXCEPT !.ten = [t \in DOMAIN @ |-> IF t \in ts THEN [@[t] EXCEPT !.rg = ~value] ELSE @[t]]]

\* The state of a module: every name of a parameter or persistent buffer, a tensor as often as it has names.
Keys(h, root) ==
    LET v == SelectSeq(Paths(h.mods, root, <<>>), LAMBDA x : x.m # 0) IN
    Flat([i \in 1..Len(v) |-> LET own == SelectSeq(h.mods[v[i].m].own, LAMBDA x : x.k \in {"p", "b"}) IN [j \in 1..Len(own) |-> [n |-> Cat(v[i].n, own[j].n), t |-> own[j].t]]])
KeyNames(h, root) == {Keys(h, root)[i].n : i \in 1..Len(Keys(h, root))}
Given(st) == {st[i].n : i \in 1..Len(st)}
\* Loading a state requires every name, and nothing else; in particular nothing below an absent child.
Absent(h, root) == {x.n : x \in {y \in Range(Paths(h.mods, root, <<>>)) : y.m = 0}}
UnderAbsent(h, root, n) == \E a \in Absent(h, root) : Len(n) > Len(a) /\ SubSeq(n, 1, Len(a)) = a
StateOk(h, root, st, strict) ==
    /\ \A n \in Given(st) : ~UnderAbsent(h, root, n)
    /\ strict => Given(st) = KeyNames(h, root)
RECURSIVE PutNames(_, _, _)
PutNames(h, ks, st) ==
    IF ks = <<>> THEN h
    ELSE PutNames(IF Head(ks).n \in Given(st) THEN LET i == CHOOSE i \in 1..Len(st) : st[i].n = Head(ks).n IN Put(h, Head(ks).t, st[i].v) ELSE h, Tail(ks), st)
LoadState(h, root, st) == PutNames(h, Keys(h, root), st)

\* A checkpoint has its own order; of the names of a tensor it needs one only.
CkptOk(h, root, ck) ==
    /\ \A i \in 1..Len(ck) : ck[i].n \in KeyNames(h, root) /\ ck[i].fits
    /\ \A i, j \in 1..Len(ck) : i # j => ck[i].n # ck[j].n
    /\ \A x \in Range(Keys(h, root)) : \E y \in Range(Keys(h, root)) : x.t = y.t /\ y.n \in Given(ck)
RECURSIVE PutCkpt(_, _, _)
PutCkpt(h, ks, ck) ==
    IF ck = <<>> THEN h
    ELSE PutCkpt(LET x == CHOOSE x \in Range(ks) : x.n = Head(ck).n IN Put(h, x.t, Head(ck).v), ks, Tail(ck))
LoadCkpt(h, root, ck) == PutCkpt(h, Keys(h, root), ck)

\* Which tensors syncing carries over: all that a module outside of the skipped ones holds as a
\* parameter or persistent buffer, or as any buffer if asked to.
RECURSIVE Unskipped(_, _, _)
Unskipped(mods, m, skip) == IF m = 0 \/ m \in skip THEN {} ELSE {m} \cup UNION {Unskipped(mods, mods[m].kids[i].m, skip) : i \in 1..Len(mods[m].kids)}
Synced(h, root, skip, np) ==
    {s.t : s \in {x \in UNION {Range(h.mods[m].own) : m \in Unskipped(h.mods, root, skip)} : x.k \in (IF np THEN {"p", "b", "n"} ELSE {"p", "b"})}}

\* Two heaps are the same up to the identity of tensors, those in `old` being known to both.
\* The first may leave contents open.
PairsOf(h, o, ms) ==
    LET own == UNION {{<<h.mods[m].own[i].t, o.mods[m].own[i].t>> : i \in 1..Len(h.mods[m].own)} : m \in ms} IN
    own \cup {<<h.ten[p[1]].g, o.ten[p[2]].g>> : p \in {q \in own : h.ten[q[1]].g # 0 /\ o.ten[q[2]].g # 0}}
SameShape(h, o) ==
    /\ DOMAIN h.mods = DOMAIN o.mods
    /\ \A m \in DOMAIN h.mods :
          /\ Len(h.mods[m].own) = Len(o.mods[m].own) /\ h.mods[m].kids = o.mods[m].kids
          /\ \A i \in 1..Len(h.mods[m].own) : h.mods[m].own[i].n = o.mods[m].own[i].n /\ h.mods[m].own[i].k = o.mods[m].own[i].k
SameIds(h, o, old) ==
    LET P == PairsOf(h, o, DOMAIN h.mods) IN
    /\ \A p, q \in P : p[1] = q[1] <=> p[2] = q[2]
    /\ \A p \in P : (p[1] \in old \/ p[2] \in old) => p[1] = p[2]
SameAttr(a, b) == a.dev = b.dev /\ a.rg = b.rg /\ (a.g = 0 <=> b.g = 0) /\ (a.val = b.val \/ a.val = ANY)
============================================================================
