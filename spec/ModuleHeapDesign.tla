------------------------- MODULE ModuleHeapDesign -------------------------
(* A root with two children that may be one module, and a third level; any  *)
(* tensors shared in any way, on either device.                             *)
EXTENDS ModuleHeap
CONSTANTS Slots, Depth, Most
VARIABLES h, first, n, last
vars == <<h, first, n, last>>
\* Module 1 is the root, 4 is another tree.
Kids(s) == CASE s = 1 -> <<<<[n |-> "x", m |-> 2], [n |-> "y", m |-> 3]>>, <<[n |-> "z", m |-> 3]>>, <<>>, <<[n |-> "x", m |-> 0], [n |-> "y", m |-> 3]>>>>
             [] s = 2 -> <<<<[n |-> "x", m |-> 2], [n |-> "y", m |-> 2]>>, <<[n |-> "z", m |-> 3]>>, <<>>, <<>>>>
Tens == 1..Most
Heaps ==
    {[mods |-> [m \in 1..4 |-> [own |-> IF m = 1 THEN <<[n |-> "a", t |-> own[1], k |-> "p"]>> ELSE IF m = 2 THEN <<[n |-> "b", t |-> own[2], k |-> "p"]>>
                                        ELSE IF m = 3 THEN <<[n |-> "c", t |-> own[3], k |-> "p"], [n |-> "d", t |-> own[4], k |-> "p"]>> ELSE <<[n |-> "e", t |-> own[5], k |-> "p"]>>,
                                kids |-> Kids(s)[m], rs |-> TRUE, rn |-> FALSE]],
      ten |-> [t \in Tens \cup {4} |-> IF t = 4 THEN [dev |-> IF 1 \in meta THEN "meta" ELSE "cpu", val |-> IF 1 \in meta THEN 0 ELSE 4, rg |-> FALSE, g |-> 0]
                              ELSE [dev |-> IF t \in meta THEN "meta" ELSE "cpu", val |-> IF t \in meta THEN 0 ELSE t, rg |-> t # 2, g |-> IF t = 1 /\ gr THEN 4 ELSE 0]]]
        : s \in {1, 2}, own \in [1..Slots -> Tens], meta \in SUBSET Tens, gr \in BOOLEAN}
Init == h \in Heaps /\ first = h /\ n = 0 /\ last = "none"
Go(h2, what) == n < Depth /\ h' = h2 /\ n' = n + 1 /\ last' = what /\ UNCHANGED first
DoDevice == \E d \in {"cpu", "meta"} : ~Mixed(h, 1) /\ Go(ToDevice(h, 1, d), d)
DoEmpty == \E d \in {"cpu", "meta"} : Go(ToEmpty(h, 1, d, TRUE), "empty")
DoFreeze == \E v \in BOOLEAN : Go(Freeze(h, 1, v), "freeze")
DoReset == Go(ResetAll(h, Order(h.mods, 1)), "reset")
Next == DoDevice \/ DoEmpty \/ DoFreeze \/ DoReset
Spec == Init /\ [][Next]_vars
Places(x, ms) == UNION {{<<m, i>> : i \in 1..Len(x.mods[m].own)} : m \in ms}
At(x, p) == x.mods[p[1]].own[p[2]].t
Tree == Below(h.mods, 1)
\* What is one tensor stays one, what are two stay two, within what is moved.
Ties == \A p, q \in Places(h, Tree) : At(h, p) = At(h, q) <=> At(first, p) = At(first, q)
Grads == \A p \in Places(h, Tree) : h.ten[At(h, p)].g # 0 <=> first.ten[At(first, p)].g # 0
OneDevice == last \in {"cpu", "meta"} => DevOf(h, Tree) = {last}
\* Nothing that can be reset is ever without content after a move.
Content == last \in {"cpu"} /\ n = 1 => \A p \in Places(h, Tree) : h.ten[At(h, p)].val # ANY /\ h.ten[At(h, p)].val # 0
Others == \A m \in DOMAIN h.mods \ Tree : h.mods[m] = first.mods[m]
\* A move is idempotent.
Again == last \in {"cpu", "meta"} => ToDevice(h, 1, last) = h
============================================================================
