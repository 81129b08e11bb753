------------------------------ MODULE ConfigTrace ------------------------------
(* Merges and processings done by the real code.                               *)
EXTENDS Config, Batch
VARIABLE t
vars == <<tid, l, t>>
Rng(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Cv(_), Ov(_)
Cv(n) == [k |-> n.k, v |-> n.v, c |-> {<<p[1], Cv(p[2])>> : p \in Rng(n.c)}]
\* An override, with its bad parts (m: what is wrong with its directives).
Ov(n) == [k |-> n.k, v |-> n.v, c |-> {<<p[1], Ov(p[2])>> : p \in Rng(n.c)}, d |-> Rng(n.d), s |-> {<<p[1], Cv(p[2])>> : p \in Rng(n.s)}, m |-> Rng(n.m)]
RECURSIVE Errors(_, _)
Errors(s, path) == {path \o x : x \in s.m} \cup UNION {Errors(p[2], path \o p[1] \o ".") : p \in s.c}

\* A single item of the command line.
RECURSIVE Item(_, _, _)
Nil == [k |-> "map", v |-> "", c |-> {}, d |-> {}, s |-> {}]
Item(del, path, val) ==
    IF Len(path) = 1 THEN (IF del THEN [Nil EXCEPT !.d = {path[1]}] ELSE [Nil EXCEPT !.s = {<<path[1], val>>}])
    ELSE [Nil EXCEPT !.c = {<<path[1], Item(del, Tail(path), val)>>}]
RECURSIVE Items(_, _, _)
Items(n, its, i) == IF i > Len(its) THEN n ELSE Items(Merge(n, Item(its[i].del, its[i].path, Cv(its[i].val))), its, i + 1)

\* ---- directives ----
\* A string is a sequence of tokens: text, ${dir}, ${env:x}, ${env:x:d}; e: the environment, dir: the directory.
RECURSIVE Text(_), EnvPass(_, _), DirPass(_, _), Passes(_, _, _, _)
Lit(tok) == CASE tok.k = "txt" -> tok.x [] tok.k = "dir" -> "${dir}" [] tok.k = "env" -> "${env:" \o tok.x \o "}" [] OTHER -> "${env:" \o tok.x \o ":" \o tok.d \o "}"
Text(q) == IF q = <<>> THEN "" ELSE Lit(q[1]) \o Text(Tail(q))
Txt(x) == [k |-> "txt", x |-> x, d |-> ""]
EnvPass(q, env) ==
    IF q = <<>> THEN <<>>
    ELSE LET tok == q[1]
             v == {i \in 1..Len(env) : env[i].n = tok.x}
             new == IF tok.k \notin {"env", "envd"} THEN <<tok>>
                    ELSE IF v # {} THEN env[CHOOSE i \in v : TRUE].v
                    ELSE <<Txt(tok.d)>>
         IN new \o EnvPass(Tail(q), env)
DirPass(q, dir) == IF q = <<>> THEN <<>> ELSE <<IF q[1].k = "dir" THEN Txt(dir) ELSE q[1]>> \o DirPass(Tail(q), dir)
\* The directives are applied one after the other.
Passes(q, ds, env, i) ==
    IF i > Len(ds) THEN q
    ELSE Passes(IF ds[i] = "env" THEN EnvPass(q, env) ELSE DirPass(q, ds[i]), ds, env, i + 1)
RECURSIVE Proc(_, _, _)
Proc(n, ds, env) ==
    CASE n.k = "str" -> [k |-> "leaf", v |-> "\"" \o Text(Passes(n.q, ds, env, 1)) \o "\"", c |-> {}]
      [] n.k = "leaf" -> Leaf(n.v)
      [] OTHER -> [k |-> n.k, v |-> "", c |-> {<<p[1], Proc(p[2], ds, env)>> : p \in Rng(n.c)}]

Step ==
    LET e == Ev IN
    CASE e.op = "start" -> t' = Cv(e.t)
      [] e.op = "merge" ->
           LET s == Ov(e.s) errs == Errors(s, "") want == Merge(t, s) IN
           /\ IF errs # {} THEN Chk("merging a malformed override: error at " \o e.err \o ", malformed at " \o ToString(errs), e.err \in errs) /\ UNCHANGED t
              ELSE /\ Exp("error of a well-formed override", e.err, "")
                   /\ Chk("merged configuration: got " \o ToString(Cv(e.out)) \o ", specification says " \o ToString(want), Cv(e.out) = want)
                   /\ t' = want
           /\ Exp("inputs after merging", e.inputs, "unchanged")
           /\ Exp("inputs after changing the merged configuration", e.apart, "unchanged")
      [] e.op = "items" ->
           LET want == Items(t, e.items, 1) IN
           /\ Chk("configuration with command line overrides: got " \o ToString(Cv(e.out)) \o ", specification says " \o ToString(want), Cv(e.out) = want)
           /\ t' = want
      [] e.op = "process" ->
           LET want == Proc(e.n, e.ds, e.env) IN
           /\ Chk("processed configuration: got " \o ToString(Cv(e.out)) \o ", specification says " \o ToString(want), Cv(e.out) = want)
           /\ Exp("input after processing", e.inputs, "unchanged")
           /\ UNCHANGED t
      [] OTHER -> Rej(ToJson(e)) /\ FALSE /\ UNCHANGED t
Init == BatchInit /\ t = Empty
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
