-------------------------------- MODULE FileTree --------------------------------
(* Operations of a file system on a small tree.  A path is a sequence of names; a    *)
(* tree maps every path up to some length to nothing, a directory or a file.  What    *)
(* copying a file onto a directory (or the reverse) leaves is not fixed: "any".       *)
EXTENDS Naturals, Sequences, FiniteSets
None == [k |-> "none", c |-> <<>>]
Dir == [k |-> "dir", c |-> <<>>]
File(c) == [k |-> "file", c |-> c]
Up(p) == SubSeq(p, 1, Len(p) - 1)
Anc(p) == {SubSeq(p, 1, n) : n \in 0..(Len(p) - 1)}
Under(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
Node(t, p) == IF p = <<>> THEN Dir ELSE IF p \in DOMAIN t THEN t[p] ELSE None
\* What is found at a path.
Find(t, p) ==
    LET a == {Node(t, q).k : q \in Anc(p)} IN
    IF "file" \in a THEN "notdir" ELSE IF "none" \in a THEN "noparent" ELSE Node(t, p).k
Kids(t, p) == {q \in DOMAIN t : Len(q) = Len(p) + 1 /\ Under(p, q) /\ t[q].k # "none"}
Below(t, p) == {q \in DOMAIN t : Under(p, q) /\ t[q].k # "none"}
\* Errors: of a missing file or directory, or any other.
Miss(s) == IF s \in {"none", "noparent"} THEN {"missing"} ELSE IF s = "notdir" THEN {"error"} ELSE {}
Res(t, r) == [t |-> t, r |-> r, bad |-> {}]
Bad(t, e) == [t |-> t, r |-> <<>>, bad |-> e]
Set(t, p, n) == [t EXCEPT ![p] = n]
Gone(t, p) == [q \in DOMAIN t |-> IF q = p \/ Under(p, q) THEN None ELSE t[q]]
Rel(p, q) == SubSeq(q, Len(p) + 1, Len(q))

Read(t, p) ==
    LET f == Find(t, p) IN
    IF f = "file" THEN Res(t, t[p].c) ELSE Bad(t, IF f = "dir" THEN {"error"} ELSE Miss(f))
Is(t, p, ks) == Res(t, IF Find(t, p) \in ks THEN <<1>> ELSE <<0>>)
Write(t, p, x, app) ==
    LET f == Find(t, p) IN
    CASE f = "none" -> Res(Set(t, p, File(<<x>>)), <<>>)
      [] f = "file" -> Res(Set(t, p, File(IF app THEN Append(t[p].c, x) ELSE <<x>>)), <<>>)
      [] f = "dir" -> Bad(t, {"error"})
      [] OTHER -> Bad(t, Miss(f))
Remove(t, p) ==
    LET f == Find(t, p) IN
    IF f = "file" THEN Res(Set(t, p, None), <<>>) ELSE Bad(t, IF f = "dir" THEN {"error"} ELSE Miss(f))
RemoveDir(t, p) ==
    LET f == Find(t, p) IN
    IF f = "dir" THEN Res(Gone(t, p), <<>>) ELSE Bad(t, IF f = "file" THEN {"error"} ELSE Miss(f))
Dirs(t, p) == [q \in DOMAIN t |-> IF q = p \/ q \in Anc(p) THEN Dir ELSE t[q]]
Mkdir(t, p) ==
    IF \E q \in Anc(p) \cup {p} : Node(t, q).k = "file" THEN Bad(t, {"error"}) ELSE Res(Dirs(t, p), <<>>)
Move(t, p, q) ==
    LET fp == Find(t, p)
        fq == Find(t, q)
        e == Miss(fp) \cup (IF fq \in {"noparent", "notdir"} THEN Miss(fq) ELSE {})
             \cup (IF fp = "file" /\ fq = "dir" THEN {"error"} ELSE {})
             \cup (IF fp = "dir" /\ fq = "file" THEN {"error"} ELSE {})
             \cup (IF p # q /\ fp = "dir" /\ fq = "dir" /\ Kids(t, q) # {} THEN {"error"} ELSE {})
             \cup (IF Under(q, p) THEN {"error"} ELSE {})
             \cup (IF Under(p, q) THEN {"error"} ELSE {})
    IN IF e # {} THEN Bad(t, e)
       ELSE IF p = q THEN Res(t, <<>>)
       ELSE Res([x \in DOMAIN t |->
                  IF x = q THEN t[p]
                  ELSE IF Under(q, x) THEN LET y == p \o Rel(q, x) IN IF y \in DOMAIN t THEN t[y] ELSE None
                  ELSE IF x = p \/ Under(p, x) THEN None ELSE t[x]], <<>>)
\* Copying one directory over another; src maps paths below it to nodes.
Merge(t, src, q) ==
    LET f == Find(t, q)
        clash == \E x \in DOMAIN src : LET n == Node(t, q \o x).k IN src[x].k # "none" /\ n # "none" /\ n # src[x].k
    IN IF f \in {"file", "notdir"} THEN Bad(t, {"error"})
       ELSE IF clash THEN Bad(t, {"any"})
       ELSE LET u == IF q = <<>> THEN t ELSE Dirs(t, q) IN
            Res([x \in DOMAIN t |->
                  IF Under(q, x) /\ Rel(q, x) \in DOMAIN src /\ src[Rel(q, x)].k # "none" THEN src[Rel(q, x)] ELSE u[x]], <<>>)
Sub(t, p) == [x \in {Rel(p, q) : q \in {y \in DOMAIN t : Under(p, y)}} |-> t[p \o x]]
CopyDir(t, p, q) ==
    LET f == Find(t, p) IN
    IF f = "dir" THEN Merge(t, Sub(t, p), q) ELSE Bad(t, IF f = "file" THEN {"error"} ELSE Miss(f))
\* A local file; copying one onto a directory is left out.
PutFile(t, c, q) ==
    LET f == Find(t, q) IN
    IF f \in {"none", "file"} THEN Res(Set(t, q, File(c)), <<>>) ELSE Bad(t, IF f = "dir" THEN {"any"} ELSE Miss(f))
Tmp(t, p) ==
    LET f == Find(t, p) IN
    IF f = "dir" THEN Res(t, <<>>) ELSE Bad(t, IF f = "file" THEN {"error"} ELSE Miss(f))
\* Entries of a directory whose names are among those of a pattern.
Glob(t, p, names) == IF Find(t, p) = "dir" THEN {q \in Kids(t, p) : q[Len(q)] \in names} ELSE {}
Glob2(t, p, names) == UNION {Glob(t, q, names) : q \in {x \in Kids(t, p) : t[x].k = "dir"}}
\* Directories at and below a path, with their files.
Walk(t, p) == {<<q, {x[Len(x)] : x \in {y \in Kids(t, q) : t[y].k = "file"}}>> : q \in {p} \cup {x \in Below(t, p) : t[x].k = "dir"}}
=============================================================================
