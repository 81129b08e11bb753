----------------------------- MODULE AssetPath ------------------------------
(* The location of a part of an asset.  A tree is a sequence of nodes        *)
(* [p, link, abs, to]: p is a path (a sequence of names); a link leads to    *)
(* the path `to', from the top if abs, from its own directory otherwise.     *)
(* What is not in the tree is no link.                                       *)
EXTENDS Integers, Sequences, FiniteSets
Parent(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)
IsUnder(p, q) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q
LinksAt(tree, p) == {i \in 1..Len(tree) : tree[i].p = p /\ tree[i].link}

\* Where one gets by following names, one after the other; fuel bounds loops of links.
RECURSIVE Walk(_, _, _, _)
Walk(tree, cur, names, fuel) ==
    IF fuel = 0 THEN <<"loop">>
    ELSE IF names = <<>> THEN cur
    ELSE IF Head(names) = ".." THEN Walk(tree, Parent(cur), Tail(names), fuel - 1)
    ELSE IF Head(names) = "." THEN Walk(tree, cur, Tail(names), fuel - 1)
    ELSE LET next == Append(cur, Head(names))
             ls == LinksAt(tree, next) IN
         IF ls = {} THEN Walk(tree, next, Tail(names), fuel - 1)
         ELSE LET i == CHOOSE i \in ls : TRUE IN
              Walk(tree, IF tree[i].abs THEN <<>> ELSE cur, tree[i].to \o Tail(names), fuel - 1)
Fuel == 60
IsLoop(p) == p # <<>> /\ p[1] = "loop"
Real(tree, p) == Walk(tree, <<>>, p, Fuel)

\* The part `sub' of an asset at a path is loaded from where it really is, if that is within where the asset really is.
Where(tree, asset, sub) == Real(tree, IF sub.abs THEN sub.to ELSE asset \o sub.to)
Within(tree, asset, sub) == IsUnder(Where(tree, asset, sub), Real(tree, asset))
=============================================================================
