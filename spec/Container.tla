------------------------------ MODULE Container ------------------------------
(* A dependency container. A registration has a type t, a key k, is single or  *)
(* in a collection (coll), shared or not (single), and a body: what its        *)
(* provider asks of the container, in order, and what comes out of it.         *)
(*   deps: sequence of [op, t, k]; req, opt, all are asked for right away;     *)
(*         lazy, call, iter, look and self are handles for later or none       *)
(*   out:  "obj", "none", "wrong" (not of type t), "inst" (a given instance)   *)
(*   fails: the number of first calls that fail                                *)
(* Objects are numbered as they are made.                                      *)
EXTENDS Integers, Sequences, FiniteSets

Unset == -2
None == 0
InitC(R) == [cache |-> [i \in 1..Len(R) |-> Unset], calls |-> [i \in 1..Len(R) |-> 0], busy |-> {}, made |-> <<>>, lazy |-> {}, on |-> <<>>, frozen |-> FALSE]

\* Registering: refused if there is one already, or after the first look-up.
Single(c, R, t, k) == {i \in 1..Len(c.on) : ~R[c.on[i]].coll /\ R[c.on[i]].t = t /\ R[c.on[i]].k = k}
Accepts(c, R, i) == ~c.frozen /\ (R[i].coll \/ Single(c, R, R[i].t, R[i].k) = {})
Register(c, i) == [c EXCEPT !.on = Append(@, i)]

\* Results: [s, id, t, k, path, reg]; s is obj, none, nf (not found), cycle, fail or wrong.
Res(s) == [s |-> s, id |-> 0, t |-> "", k |-> "", path |-> <<>>, reg |-> 0]
Obj(id) == [Res("obj") EXCEPT !.id = id]
NotFound(t, k) == [Res("nf") EXCEPT !.t = t, !.k = k]
At(g) == <<g.t, g.k>>
Bad(r) == r.s \notin {"obj", "none"}

RECURSIVE Get(_, _, _), Resolve(_, _, _, _), Maybe(_, _, _, _), All(_, _, _, _, _, _), Args(_, _, _, _, _)
\* The instance of registration i: <<new state, result>>.
Get(c, R, i) ==
    LET g == R[i] IN
    IF g.out = "inst" THEN <<c, Obj(1000 + i)>>
    ELSE IF c.cache[i] # Unset
    THEN <<c, IF c.cache[i] = None THEN Res("none") ELSE IF g.out = "wrong" THEN Res("wrong") ELSE Obj(c.cache[i])>>
    ELSE IF i \in c.busy THEN <<c, [Res("cycle") EXCEPT !.path = <<At(g)>>]>>
    ELSE LET a == Args([c EXCEPT !.busy = @ \cup {i}], R, g.deps, 1, <<>>)
             r == a[2]
             d == [a[1] EXCEPT !.busy = @ \ {i}, !.calls[i] = IF Bad(r) THEN @ ELSE @ + 1] IN
         IF Bad(r) THEN <<d, IF r.s = "cycle" THEN [r EXCEPT !.path = <<At(g)>> \o @] ELSE r>>
         ELSE IF d.calls[i] <= g.fails THEN <<d, [Res("fail") EXCEPT !.reg = i]>>
         ELSE IF g.out = "none" THEN <<IF g.single THEN [d EXCEPT !.cache[i] = None] ELSE d, Res("none")>>
         ELSE LET id == Len(d.made) + 1
                  e == [d EXCEPT !.made = Append(@, [reg |-> i, args |-> a[3]])]
                  f == IF g.single THEN [e EXCEPT !.cache[i] = id] ELSE e IN
              <<f, IF g.out = "wrong" THEN Res("wrong") ELSE Obj(id)>>
Resolve(c, R, t, k) ==
    LET S == Single(c, R, t, k) IN
    IF S = {} THEN <<c, NotFound(t, k)>>
    ELSE LET x == Get(c, R, c.on[CHOOSE i \in S : TRUE]) IN
         IF x[2].s = "none" THEN <<x[1], NotFound(t, k)>> ELSE x
\* Nothing if the object itself is not there; errors within it are not hidden.
Maybe(c, R, t, k) ==
    LET x == Resolve(c, R, t, k) IN
    IF x[2].s = "nf" /\ x[2].t = t /\ x[2].k = k THEN <<x[1], Res("none")>> ELSE x
\* <<state, result, ids>>: everything in the collection, in order.
All(c, R, t, k, i, acc) ==
    IF i > Len(c.on) THEN <<c, Res("obj"), acc>>
    ELSE LET g == R[c.on[i]] IN
         IF ~(g.coll /\ g.t = t /\ g.k = k) THEN All(c, R, t, k, i + 1, acc)
         ELSE LET x == Get(c, R, c.on[i]) IN
              IF Bad(x[2]) THEN <<x[1], x[2], acc>>
              ELSE All(x[1], R, t, k, i + 1, IF x[2].s = "none" THEN acc ELSE Append(acc, x[2].id))
Args(c, R, deps, j, acc) ==
    IF j > Len(deps) THEN <<c, Res("obj"), acc>>
    ELSE LET d == deps[j] IN
         CASE d.op = "req" -> LET x == Resolve(c, R, d.t, d.k) IN
                              IF Bad(x[2]) THEN <<x[1], x[2], acc>> ELSE Args(x[1], R, deps, j + 1, Append(acc, <<x[2].id>>))
           [] d.op = "opt" -> LET x == Maybe(c, R, d.t, d.k) IN
                              IF Bad(x[2]) THEN <<x[1], x[2], acc>>
                              ELSE Args(x[1], R, deps, j + 1, Append(acc, IF x[2].s = "none" THEN <<>> ELSE <<x[2].id>>))
           [] d.op = "all" -> LET x == All(c, R, d.t, d.k, 1, <<>>) IN
                              IF Bad(x[2]) THEN <<x[1], x[2], acc>> ELSE Args(x[1], R, deps, j + 1, Append(acc, x[3]))
           [] OTHER -> Args(c, R, deps, j + 1, Append(acc, <<>>))
\* A handle that an object was given is used: a lazy one makes its object once.
Handle(c, R, id, j) ==
    LET d == R[c.made[id].reg].deps[j]
        L == {v \in c.lazy : v[1] = id /\ v[2] = j} IN
    CASE d.op = "lazy" ->
           IF L # {} THEN <<c, Obj((CHOOSE v \in L : TRUE)[3]), <<>>>>
           ELSE LET x == Resolve(c, R, d.t, d.k) IN
                <<IF x[2].s = "obj" THEN [x[1] EXCEPT !.lazy = @ \cup {<<id, j, x[2].id>>}] ELSE x[1], x[2], <<>>>>
      [] d.op = "call" -> Resolve(c, R, d.t, d.k) \o <<<<>>>>
      [] d.op = "look" -> Maybe(c, R, d.t, d.k) \o <<<<>>>>
      [] d.op = "iter" -> All(c, R, d.t, d.k, 1, <<>>)
\* An object made outside of the container from what is in it.
Wire(c, R, i) ==
    LET a == Args(c, R, R[i].deps, 1, <<>>) IN
    IF Bad(a[2]) THEN <<a[1], a[2]>> ELSE <<[a[1] EXCEPT !.made = Append(@, [reg |-> i, args |-> a[3]])], Obj(Len(a[1].made) + 1)>>
Keys(c, R, coll, t) == LET F(i) == R[c.on[i]].coll = coll /\ R[c.on[i]].t = t IN {R[c.on[i]].k : i \in {q \in 1..Len(c.on) : F(q)}}
=============================================================================
