----------------------------- MODULE FileTreeTrace -----------------------------
(* A history of operations of one file system, with results and the tree after each. *)
EXTENDS FileTree, Batch
VARIABLES tree
Names == {"a", "b"}
Paths == UNION {[1..n -> Names] : n \in 1..5}
Of(list) == [p \in Paths |->
    IF \E i \in 1..Len(list) : list[i].p = p THEN LET i == CHOOSE i \in 1..Len(list) : list[i].p = p IN [k |-> list[i].k, c |-> list[i].c] ELSE None]
Set3(t) == {[p |-> p, k |-> t[p].k, c |-> t[p].c] : p \in {q \in Paths : t[q].k # "none"}}
Seen(e) == {e.tree[i] : i \in 1..Len(e.tree)}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Init == BatchInit /\ tree = Of(Cfg.tree)
Src(list) == [x \in {list[i].p : i \in 1..Len(list)} |-> LET i == CHOOSE i \in 1..Len(list) : list[i].p = x IN [k |-> list[i].k, c |-> list[i].c]]
Apply(e) ==
    CASE e.o = "write" -> Write(tree, e.p, e.x, FALSE)
      [] e.o = "append" -> Write(tree, e.p, e.x, TRUE)
      [] e.o = "remove" -> Remove(tree, e.p)
      [] e.o = "rmdir" -> RemoveDir(tree, e.p)
      [] e.o = "mkdir" -> Mkdir(tree, e.p)
      [] e.o = "move" -> Move(tree, e.p, e.q)
      [] e.o = "copy" -> CopyDir(tree, e.p, e.q)
      [] e.o = "putfile" -> PutFile(tree, <<e.x>>, e.q)
      [] e.o = "putdir" -> Merge(tree, Src(e.src), e.q)
      [] e.o = "read" -> Read(tree, e.p)
      [] e.o = "exists" -> Is(tree, e.p, {"file", "dir"})
      [] e.o = "is_file" -> Is(tree, e.p, {"file"})
      [] e.o = "is_dir" -> Is(tree, e.p, {"dir"})
      [] e.o = "tmp" -> Tmp(tree, e.p)
      [] OTHER -> Res(tree, <<>>)
Op(e) ==
    LET w == Apply(e) IN
    /\ IF w.bad = {} THEN Exp("outcome", e.res, "ok")
       ELSE Chk("outcome: " \o e.res \o ", specification says " \o ToJson(w.bad), e.res \in w.bad \/ (w.bad = {"any"} /\ e.res \in {"ok", "error"}))
    /\ IF w.bad = {"any"} THEN tree' = Of(e.tree)
       ELSE /\ w.bad = {} => Exp("result", e.r, w.r)
            /\ Exp("tree", Seen(e), Set3(w.t))
            /\ tree' = w.t
\* What walking a file gives is not fixed.
List(e) ==
    IF e.o = "walk" /\ Find(tree, e.p) = "file" THEN UNCHANGED tree ELSE
    /\ Exp("outcome", e.res, IF e.o = "walk" /\ Find(tree, e.p) # "dir" THEN "reported" ELSE "ok")
    /\ Exp("listed",
           CASE e.o = "walk" -> {<<e.r[i][1], SetOf(e.r[i][2])>> : i \in 1..Len(e.r)}
             [] OTHER -> SetOf(e.r),
           CASE e.o = "walk" -> IF Find(tree, e.p) = "dir" THEN Walk(tree, e.p) ELSE {}
             [] e.o = "glob" -> Glob(tree, e.p, SetOf(e.names))
             [] e.o = "glob2" -> Glob2(tree, e.p, SetOf(e.names)))
    /\ Exp("listed twice", Len(e.r), Cardinality(SetOf(e.r)))
    /\ Exp("tree", Seen(e), Set3(tree))
    /\ UNCHANGED tree
Step == LET e == Ev IN IF e.o \in {"glob", "glob2", "walk"} THEN List(e) ELSE Op(e)
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_<<tree, tid, l>>
=============================================================================
