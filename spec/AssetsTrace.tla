------------------------------ MODULE AssetsTrace ------------------------------
(* A real asset store opened over real sources, and look-ups in it.            *)
EXTENDS Assets, Batch
VARIABLE es
vars == <<tid, l, es>>
Rng(s) == {s[i] : i \in 1..Len(s)}
Entry(x) == [n |-> x.n, e |-> x.e, b |-> x.b, hasb |-> x.hasb, f |-> {<<p[1], p[2]>> : p \in Rng(x.f)}, cfg |-> {<<p[1], p[2]>> : p \in Rng(x.cfg)}, hascfg |-> x.hascfg, dir |-> x.dir]
All(src) == [i \in 1..Len(src) |-> [j \in 1..Len(src[i]) |-> src[i][j].n \o "@" \o src[i][j].e]]
Flat == LET RECURSIVE F(_, _) F(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o F(s, i + 1) IN F(Cfg.sources, 1)
Clash(q) == \E i, j \in 1..Len(q) : i # j /\ q[i].n = q[j].n /\ q[i].e = q[j].e
Bad(q) == \E i \in 1..Len(q) : q[i].bad # ""

Path(chain, v, i) ==
    IF v \in Rng(Cfg.rels) THEN (IF chain[i].dir = "" THEN "AssetCardError" ELSE chain[i].dir \o "/" \o v) ELSE v
Fields == <<"x", "y", "p">>
Shown(r) ==
    IF r.s # "card" THEN [s |-> r.s, n |-> "", names |-> <<>>, f |-> <<>>, p |-> ""]
    ELSE [s |-> "card", n |-> r.c[1].n, names |-> [i \in 1..Len(r.c) |-> r.c[i].n],
          f |-> [k \in 1..Len(Fields) |-> Value(r.c, Fields[k])],
          p |-> IF Owner(r.c, "p") = 0 THEN "-" ELSE Path(r.c, Value(r.c, "p"), Owner(r.c, "p"))]
Default == Cfg.env
Bare(n) == [n |-> n, tagged |-> FALSE, env |-> ""]
Cards == {x.n : x \in {y \in es : y.e = ""}}
Step ==
    LET e == Ev IN
    CASE e.op = "open" ->
           /\ Exp("opening the sources", e.res, IF Clash(Flat) \/ Bad(Flat) THEN "AssetMetadataError" ELSE "ok")
           /\ es' = IF e.res = "ok" THEN {Entry(Flat[i]) : i \in 1..Len(Flat)} ELSE {}
      [] e.op = "names" -> Exp("asset names", Rng(e.names), Names(es)) /\ UNCHANGED es
      [] e.op = "get" -> Exp("look-up of " \o e.text, e.res, Shown(Lookup(es, e.q, Default))) /\ UNCHANGED es
      [] e.op = "find" ->
           LET rs == [n \in Cards |-> Lookup(es, Bare(n), Default)] IN
           /\ IF \E n \in Cards : rs[n].s = "error" THEN Exp("search for " \o e.f, e.res, "AssetCardError")
              ELSE /\ Exp("search for " \o e.f, e.res, "ok")
                   /\ Exp("cards with " \o e.f \o " " \o e.v, Rng(e.names), {n \in Cards : Value(rs[n].c, e.f) = e.v})
           /\ UNCHANGED es
      [] e.op = "config" ->
           LET r == Lookup(es, e.q, Default) IN
           /\ Chk("configuration of " \o e.text \o " without a card", r.s = "card")
           /\ Exp("configuration of " \o e.text, Rng(e.out), Config(r.c, {<<p[1], p[2]>> : p \in Rng(e.given)}, Len(r.c)))
           /\ UNCHANGED es
      [] OTHER -> Rej(ToJson(e)) /\ FALSE /\ UNCHANGED es
Init == BatchInit /\ es = {}
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
