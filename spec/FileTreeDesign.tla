----------------------------- MODULE FileTreeDesign -----------------------------
(* Every operation on every small tree; with Solid, those a store of objects has to   *)
(* do: that succeed, and leave no directory empty.                                   *)
EXTENDS FileTree, TLC, Json
CONSTANTS Names, Deep, Depth, Solid, Emitting
Paths == UNION {[1..n -> Names] : n \in 1..Deep}
Fits(t) == \A p \in Paths : t[p].k # "none" => Node(t, Up(p)).k = "dir"
Full(t) == \A p \in Paths : t[p].k = "dir" => Kids(t, p) # {}
VARIABLES tree, prev, op, hist, first
vars == <<tree, prev, op, hist, first>>
Trees == {t \in [Paths -> {None, Dir, File(<<0>>)}] : Fits(t)}
Init == tree \in Trees /\ (Solid => Full(tree)) /\ prev = tree /\ op = [o |-> "none", p |-> <<>>, q |-> <<>>] /\ hist = <<>> /\ first = tree
Apply(o, p, q) ==
    CASE o = "write" -> Write(tree, p, Len(hist) + 1, FALSE)
      [] o = "append" -> Write(tree, p, Len(hist) + 1, TRUE)
      [] o = "remove" -> Remove(tree, p)
      [] o = "rmdir" -> RemoveDir(tree, p)
      [] o = "mkdir" -> Mkdir(tree, p)
      [] o = "move" -> Move(tree, p, q)
      [] o = "copy" -> CopyDir(tree, p, q)
Do(o, p, q) ==
    /\ Len(hist) < Depth
    /\ Solid => Apply(o, p, q).bad = {} /\ Full(Apply(o, p, q).t)
    /\ op' = [o |-> o, p |-> p, q |-> q, res |-> Apply(o, p, q)]
    /\ tree' = Apply(o, p, q).t /\ prev' = tree
    /\ hist' = Append(hist, [o |-> o, p |-> p, q |-> q])
    /\ UNCHANGED first
Write1 == \E p \in Paths : Do("write", p, <<>>)
Append1 == \E p \in Paths : Do("append", p, <<>>)
Remove1 == \E p \in Paths : Do("remove", p, <<>>)
Rmdir1 == \E p \in Paths : Do("rmdir", p, <<>>)
Mkdir1 == \E p \in Paths : Do("mkdir", p, <<>>)
Move1 == \E p, q \in Paths : Do("move", p, q)
Copy1 == \E p, q \in Paths : p # q /\ ~Under(p, q) /\ ~Under(q, p) /\ Do("copy", p, q)
Next == Write1 \/ Append1 \/ Remove1 \/ Rmdir1 \/ Mkdir1 \/ Move1 \/ Copy1
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Shape == Fits(tree)
Same(ps) == \A p \in Paths \ ps : tree[p] = prev[p]
Tree(p) == {q \in Paths : q = p \/ Under(p, q)}
\* An operation that fails changes nothing (copies that clash apart).
Failed == op.o # "none" /\ op.res.bad # {} => tree = prev
\* One that succeeds changes what it names only, as it should.
Effect ==
    (op.o # "none" /\ op.res.bad = {}) =>
    CASE op.o = "write" -> Same({op.p}) /\ Len(tree[op.p].c) = 1
      [] op.o = "append" -> Same({op.p}) /\ tree[op.p].c = Append(prev[op.p].c, Len(hist))
      [] op.o = "remove" -> Same({op.p}) /\ prev[op.p].k = "file" /\ tree[op.p].k = "none"
      [] op.o = "rmdir" -> Same(Tree(op.p)) /\ \A q \in Tree(op.p) : tree[q].k = "none"
      [] op.o = "mkdir" -> Same({op.p} \cup Anc(op.p)) /\ tree[op.p].k = "dir" /\ (prev[op.p].k = "dir" => tree = prev)
      [] op.o = "move" -> /\ Same(Tree(op.p) \cup Tree(op.q))
                          /\ op.p # op.q => Sub(tree, op.q) = [x \in DOMAIN Sub(tree, op.q) |-> Node(prev, op.p \o x)] /\ tree[op.q] = prev[op.p] /\ tree[op.p].k = "none"
      [] op.o = "copy" -> /\ Same(Tree(op.q) \cup Anc(op.q)) /\ Sub(tree, op.p) = Sub(prev, op.p)
                          /\ \A q \in Tree(op.q) \ {op.q} : tree[q] # prev[q] => tree[q] = Node(prev, op.p \o Rel(op.q, q))
Holds == (Emitting /\ Len(hist) = Depth) =>
    PrintT("GEN|" \o ToJson([tree |-> {[p |-> p, k |-> first[p].k] : p \in {x \in Paths : first[x].k # "none"}}, hist |-> hist]))
=============================================================================
