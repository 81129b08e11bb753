-------------------------- MODULE AssetPathDesign ---------------------------
(* All small trees, assets and parts: what is loaded is within the asset,    *)
(* and what is plainly within the asset is loaded however it is reached.     *)
EXTENDS AssetPath
CONSTANTS Names, Deep, Links
VARIABLES tree, asset, sub
vars == <<tree, asset, sub>>
Paths(n) == UNION {[1..k -> Names] : k \in 1..n}
Mixed(n) == UNION {[1..k -> Names \cup {".."}] : k \in 1..n}
Node == [p : Paths(2), link : {TRUE}, abs : BOOLEAN, to : Mixed(Deep)]
Trees == UNION {[1..k -> Node] : k \in 0..Links}
Init ==
    /\ tree \in Trees
    /\ \A i, j \in 1..Len(tree) : i # j => tree[i].p # tree[j].p /\ ~IsUnder(tree[i].p, tree[j].p)
    /\ asset \in Paths(2)
    /\ sub \in [abs : BOOLEAN, to : Mixed(Deep)]
Looping == IsLoop(Where(tree, asset, sub)) \/ IsLoop(Real(tree, asset))
Next == UNCHANGED vars
Ok(p) == \A n \in 1..Len(p) : LinksAt(tree, SubSeq(p, 1, n)) = {} /\ p[n] \notin {".", ".."}
\* A real location is its own real location: nothing that is loaded can lead elsewhere.
Stable ==
    ~Looping =>
        /\ Ok(Where(tree, asset, sub))
        /\ Ok(Real(tree, asset))
        /\ Real(tree, Where(tree, asset, sub)) = Where(tree, asset, sub)
\* A part named without links and parents is within, even where the asset itself is reached by links.
Plain ==
    LET r == Real(tree, asset) IN
    (~Looping /\ ~sub.abs /\ (\A i \in 1..Len(sub.to) : sub.to[i] # "..") /\ (\A i \in 1..Len(tree) : ~(IsUnder(tree[i].p, r) /\ tree[i].p # r)))
        => Within(tree, asset, sub) /\ Where(tree, asset, sub) = r \o sub.to
\* To go up first leaves the asset, unless a link leads back.
Leaves == (~Looping /\ ~sub.abs /\ Len(sub.to) = 1 /\ sub.to[1] = ".." /\ Real(tree, asset) # <<>>) => ~Within(tree, asset, sub)
\* What two ways lead to is the same.
SameWay == (~Looping /\ ~sub.abs) => Within(tree, asset, sub) = Within(tree, asset, [abs |-> TRUE, to |-> Where(tree, asset, sub)])
Spec == Init /\ [][Next]_vars
=============================================================================
