--------------------------- MODULE StructuredDesign ---------------------------
(* All small types, their values and arbitrary data: the rule against what is   *)
(* asked of it.                                                                 *)
EXTENDS Structured, Json, TLC
CONSTANTS Emitting, Wide, Thin
VARIABLES ty, d, v, phase
vars == <<ty, d, v, phase>>
Scal == {T0(k) : k \in {"int", "float", "bool", "str", "none", "path", "dtype"}} \cup {Ty("enum", "E1", <<>>, <<>>, <<>>), Ty("lit", "", <<>>, <<"A", "2">>, <<>>)}
Dc1 == Ty("dc", "P", <<T0("int"), TN("union", <<T0("none"), T0("float")>>)>>, <<"x", "y">>, <<<<>>, <<None>>>>)
Unions == {TN("union", <<a, b>>) : a \in Scal, b \in Scal}
Deep == {T1("list", T0("int")), T1("list", T0("str")), T1("set", T0("int")), T1("vtup", T0("float")), TN("tup", <<T0("int"), T0("str")>>), TN("dict", <<T0("str"), T0("int")>>),
         TN("dict", <<T0("int"), T0("str")>>), Dc1}
More == {TN("union", <<a, b>>) : a \in Scal, b \in Deep} \cup {TN("union", <<b, a>>) : a \in Scal, b \in Deep} \cup {TN("dict", <<T0("str"), Dc1>>)}
        \cup {T1("list", TN("union", <<T0("float"), T0("bool")>>)), TN("tup", <<TN("union", <<T0("none"), T0("int")>>), T0("str")>>), T1("list", T1("list", T0("float")))}
Types == Scal \cup {u \in Unions : u.c[1] # u.c[2]} \cup Deep \cup More
Atoms == {Whole(1), Whole(2), Flt(1000), Flt(2500), Val("float", 0, "inf", <<>>), Str("A"), Str("2"), Str("2.5"), Str("float16"), Str(""), Bool(TRUE), None,
          Val("path", 0, "A", <<>>), Val("enum:E1", 0, "A", <<>>), Val("dtype", 0, "float16", <<>>)}
Few == IF Wide THEN Atoms ELSE {Whole(1), Whole(2), Flt(1000), Flt(2500), Str("A"), Str("2"), Bool(TRUE), None}
Seqs == {<<>>} \cup {<<a>> : a \in Atoms} \cup {<<a, b>> : a, b \in Few}
Keyed == {<<>>} \cup {<<Kv(a, b)>> : a, b \in Few} \cup {<<Kv(a, b), Kv(Str("y"), x)>> : a \in {Whole(2), Str("2"), Str("x"), Str("z")}, b, x \in Few} \cup {<<Kv(Str("2"), Str("A")), Kv(Whole(2), Str("A"))>>}
Distinct(q) == \A i, j \in 1..Len(q) : i < j => Entry(q[i]) # Entry(q[j])
Data == Atoms \cup {Seq1("list", q) : q \in Seqs} \cup {Seq1("tuple", q) : q \in Seqs} \cup {Seq1("set", q) : q \in {x \in Seqs : Distinct(x)}} \cup {Seq1("dict", q) : q \in Keyed}
        \cup {Seq1("dc:P", <<a, b>>) : a \in {Whole(1), Bool(TRUE)}, b \in {None, Flt(2500)}}
        \cup {Seq1("list", <<Seq1("list", <<a>>)>>) : a \in Few} \cup {Seq1("dict", <<Kv(Str("A"), Seq1("dict", q))>>) : q \in {y \in Keyed : Len(y) < 2}}
        \cup {Seq1("dict", <<Kv(Str("A"), Seq1("dc:P", <<Whole(1), Flt(2500)>>))>>)}
\* (kept in a register: TLC does not keep the value of a definition that uses recursive operators)
ASSUME TLCSet(90, [T \in Types |-> {x \in Data : Has(T, x)}]) /\ TLCSet(91, Data)
Cand(T) == IF Wide THEN TLCGet(91) ELSE TLCGet(90)[T]
F == ("dc:P" :> <<"x", "y">>)
Init == ty \in Types /\ d \in TLCGet(91) /\ v = None /\ phase = "data"
\* A value is chosen; it is one the rule may give for the data.
Take == phase = "data" /\ phase' = "value" /\ v' \in {x \in Cand(ty) : Fits(ty, d, x)} /\ UNCHANGED <<ty, d>>
Next == Take
Spec == Init /\ [][Next]_vars
\* What is given is a value of the type.
Typed == phase = "value" => Has(ty, v)
\* A value of the type is taken as it is (unless an object of a union is read as another of its alternatives by conversion of its parts).
Stays == phase = "data" /\ Has(ty, d) /\ Plain(ty) => ~May0(ty, d) \/ (d.t \in {"dict", "set"} /\ d.c # <<>>)
Keeps == phase = "value" /\ Has(ty, d) /\ Plain(ty) => v = d \/ (d.t \in {"set"} /\ {v.c[i] : i \in 1..Len(v.c)} = {d.c[i] : i \in 1..Len(d.c)})
\* Its untyped form leads back to it, and to nothing else.
Back == phase = "data" /\ Has(ty, d) => Fits(ty, Flat(F, d), d) \/ ~Plain(ty)
Only == phase = "data" /\ Has(ty, d) /\ Plain(ty) => \A x \in Cand(ty) : Fits(ty, Flat(F, d), x) => (x = d \/ (x.t = "set" /\ d.t = "set"))
\* Data is either given a value or refused.
Total == phase = "data" /\ d.t \notin {"list", "tuple", "set", "dict", "float", "str", "int", "bool"} => May0(ty, d) \/ Fits(ty, d, d) \/ \E x \in Cand(ty) : Fits(ty, d, x)
Emit == Emitting /\ phase = "data" /\ RandomElement(1..Thin) = 1 => PrintT("GEN|" \o ToJson([ty |-> ty, d |-> d]))
===============================================================================
