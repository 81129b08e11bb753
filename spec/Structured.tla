------------------------------ MODULE Structured ------------------------------
(* Typed configuration values and their untyped (YAML) form.                     *)
(* Types:  [k, s, c, f, d]  k: kind, s: name, c: argument types, f: field names  *)
(*         or literals, d: for each field <<>> or <<its default>>.               *)
(* Values: [t, n, s, c]  t: kind, n: number in thousandths, s: text, c: parts.   *)
EXTENDS Integers, Sequences, FiniteSets
Ty(k, s, c, f, d) == [k |-> k, s |-> s, c |-> c, f |-> f, d |-> d]
T0(k) == Ty(k, "", <<>>, <<>>, <<>>)
T1(k, a) == Ty(k, "", <<a>>, <<>>, <<>>)
TN(k, as) == Ty(k, "", as, <<>>, <<>>)
Val(t, n, s, c) == [t |-> t, n |-> n, s |-> s, c |-> c]
Whole(n) == Val("int", n * 1000, "", <<>>)
Flt(m) == Val("float", m, "", <<>>)
Str(s) == Val("str", 0, s, <<>>)
Bool(b) == Val("bool", IF b THEN 1000 ELSE 0, "", <<>>)
None == Val("none", 0, "", <<>>)
Seq1(t, c) == Val(t, 0, "", c)
Kv(k, v) == Val("kv", 0, "", <<k, v>>)

\* What numbers are written as text: none, an integer, or a fraction.
IntTexts == [x \in {"0", "1", "2", "3", " 3 ", "-1"} |-> CASE x = "0" -> 0 [] x = "1" -> 1000 [] x = "2" -> 2000 [] x = "-1" -> -1000 [] OTHER -> 3000]
FltTexts == [x \in {"2.5", "1e3", "3.0", "1e-3", "1.5"} |-> CASE x = "2.5" -> 2500 [] x = "1.5" -> 1500 [] x = "1e3" -> 1000000 [] x = "3.0" -> 3000 [] OTHER -> 1]
Special == {"inf", "-inf", "nan"}
DtypeOf == [x \in {"float16", "torch.float16", "float32", "float", "torch.float", "half", "bfloat16", "int64", "bool"} |->
    CASE x \in {"float16", "torch.float16", "half"} -> "float16" [] x \in {"float32", "float", "torch.float"} -> "float32" [] OTHER -> x]
Devices == {"cpu", "cuda:0", "cuda", "meta", "cuda:1"}
EnumOf == [x \in {"E1", "E2"} |-> IF x = "E1" THEN {"A", "B"} ELSE {"B", "C", "1"}]

PathOf(s) == CASE s = "" -> "." [] s = "a//b/" -> "a/b" [] s = "./A" -> "A" [] OTHER -> s
IsSeq(d) == d.t \in {"list", "tuple"}
NumOf(d) == d.t \in {"int", "float", "bool"}

\* x is a value of type T.
RECURSIVE Has(_, _)
Has(T, x) ==
    CASE T.k \in {"object"} -> TRUE
      [] T.k = "int" -> x.t \in {"int", "bool"}
      [] T.k \in {"float", "bool", "str", "none", "path", "dtype", "device"} -> x.t = T.k
      [] T.k = "enum" -> x.t = "enum:" \o T.s
      [] T.k = "lit" -> x.t = "str" /\ \E i \in 1..Len(T.f) : T.f[i] = x.s
      [] T.k = "list" -> x.t = "list" /\ \A i \in 1..Len(x.c) : Has(T.c[1], x.c[i])
      [] T.k = "set" -> x.t = "set" /\ \A i \in 1..Len(x.c) : Has(T.c[1], x.c[i])
      [] T.k = "vtup" -> x.t = "tuple" /\ \A i \in 1..Len(x.c) : Has(T.c[1], x.c[i])
      [] T.k = "tup" -> x.t = "tuple" /\ Len(x.c) = Len(T.c) /\ \A i \in 1..Len(x.c) : Has(T.c[i], x.c[i])
      [] T.k = "dict" -> x.t = "dict" /\ \A i \in 1..Len(x.c) : Has(T.c[1], x.c[i].c[1]) /\ Has(T.c[2], x.c[i].c[2])
      [] T.k = "dc" -> x.t = "dc:" \o T.s /\ \A i \in 1..Len(T.c) : Has(T.c[i], x.c[i])
      [] T.k = "union" -> \E i \in 1..Len(T.c) : Has(T.c[i], x)

\* The untyped form.  F: the field names of each dataclass.
RECURSIVE Flat(_, _)
Flat(F, x) ==
    CASE x.t \in {"int", "float", "bool", "str", "none"} -> x
      [] x.t \in {"list", "tuple", "set"} -> Seq1("list", [i \in 1..Len(x.c) |-> Flat(F, x.c[i])])
      [] x.t = "dict" -> Seq1("dict", [i \in 1..Len(x.c) |-> Kv(Flat(F, x.c[i].c[1]), Flat(F, x.c[i].c[2]))])
      [] x.t \in DOMAIN F -> Seq1("dict", [i \in 1..Len(x.c) |-> Kv(Str(F[x.t][i]), Flat(F, x.c[i]))])
      [] OTHER -> Str(x.s)

\* d is the untyped form of x (that of a set is a list in any order).
RECURSIVE Flats(_, _, _)
Flats(F, x, d) ==
    CASE x.t \in {"int", "float", "bool", "str", "none"} -> d = x
      [] x.t \in {"list", "tuple"} -> d.t = "list" /\ Len(d.c) = Len(x.c) /\ \A i \in 1..Len(x.c) : Flats(F, x.c[i], d.c[i])
      [] x.t = "set" -> /\ d.t = "list" /\ Len(d.c) = Len(x.c)
                        /\ \A i \in 1..Len(x.c) : \E j \in 1..Len(x.c) : Flats(F, x.c[i], d.c[j])
                        /\ \A j \in 1..Len(x.c) : \E i \in 1..Len(x.c) : Flats(F, x.c[i], d.c[j])
      [] x.t = "dict" -> d.t = "dict" /\ Len(d.c) = Len(x.c) /\ \A i \in 1..Len(x.c) : Flats(F, x.c[i].c[1], d.c[i].c[1]) /\ Flats(F, x.c[i].c[2], d.c[i].c[2])
      [] x.t \in DOMAIN F -> d.t = "dict" /\ Len(d.c) = Len(x.c) /\ \A i \in 1..Len(x.c) : d.c[i].c[1] = Str(F[x.t][i]) /\ Flats(F, x.c[i], d.c[i].c[2])
      [] OTHER -> d = Str(x.s)

\* Two scalars are the same entry of a set or a mapping once read as a number or as text.
TextNum(s) == IF s \in DOMAIN IntTexts THEN <<IntTexts[s]>> ELSE IF s \in DOMAIN FltTexts THEN <<FltTexts[s]>> ELSE IF s \in DOMAIN DtypeOf THEN <<-7777, DtypeOf[s]>> ELSE <<-9999, s>>
Entry(d) == IF NumOf(d) /\ d.s = "" THEN <<d.n>> ELSE IF d.s # "" THEN TextNum(d.s) ELSE <<-8888>>
May(T, c) == \E i, j \in 1..Len(c) : i < j /\ (c[i] = c[j] \/ (Entry(c[i]) = Entry(c[j])))

Numeric(T) == T.k \in {"int", "float"}
\* The union has an alternative whose values d is one of, without any conversion.
Scalar(d) == d.t \notin {"list", "tuple", "set", "dict"}
Exact(T, d) == Scalar(d) /\ \E i \in 1..Len(T.c) : T.c[i].k # "union" /\ T.c[i].k # "object" /\ Has(T.c[i], d) /\ ~(T.c[i].k = "int" /\ d.t = "bool")

\* Structuring d as T may give v ...
RECURSIVE Fits(_, _, _), May0(_, _)
Fits(T, d, v) ==
    CASE T.k = "object" -> v = d
      [] T.k = "int" -> \/ d.t \in {"int", "bool"} /\ v = d
                        \/ d.t = "float" /\ d.s = "" /\ d.n % 1000 = 0 /\ v = Val("int", d.n, "", <<>>)
                        \/ d.t = "str" /\ d.s \in DOMAIN IntTexts /\ v = Val("int", IntTexts[d.s], "", <<>>)
      [] T.k = "float" -> \/ d.t = "float" /\ v = d
                          \/ d.t \in {"int", "bool"} /\ v = Flt(d.n)
                          \/ d.t = "str" /\ d.s \in DOMAIN IntTexts /\ v = Flt(IntTexts[d.s])
                          \/ d.t = "str" /\ d.s \in DOMAIN FltTexts /\ v = Flt(FltTexts[d.s])
                          \/ d.t = "str" /\ d.s \in Special /\ v = Val("float", 0, d.s, <<>>)
      [] T.k \in {"bool", "str", "none"} -> d.t = T.k /\ v = d
      [] T.k = "path" -> d.t \in {"path", "str"} /\ v = Val("path", 0, PathOf(d.s), <<>>)
      [] T.k = "dtype" -> \/ d.t = "dtype" /\ v = d
                          \/ d.t = "str" /\ d.s \in DOMAIN DtypeOf /\ v = Val("dtype", 0, DtypeOf[d.s], <<>>)
      [] T.k = "device" -> \/ d.t = "device" /\ v = d
                           \/ d.t = "str" /\ d.s \in Devices /\ v = Val("device", 0, d.s, <<>>)
      [] T.k = "enum" -> d.t \in {"str", "enum:" \o T.s} /\ d.s \in EnumOf[T.s] /\ v = Val("enum:" \o T.s, 0, d.s, <<>>)
      [] T.k = "lit" -> Has(T, d) /\ v = d
      [] T.k = "list" -> IsSeq(d) /\ v.t = "list" /\ Len(v.c) = Len(d.c) /\ \A i \in 1..Len(d.c) : Fits(T.c[1], d.c[i], v.c[i])
      [] T.k = "vtup" -> IsSeq(d) /\ v.t = "tuple" /\ Len(v.c) = Len(d.c) /\ \A i \in 1..Len(d.c) : Fits(T.c[1], d.c[i], v.c[i])
      [] T.k = "tup" -> IsSeq(d) /\ Len(d.c) = Len(T.c) /\ v.t = "tuple" /\ Len(v.c) = Len(d.c) /\ \A i \in 1..Len(d.c) : Fits(T.c[i], d.c[i], v.c[i])
      [] T.k = "set" -> /\ IsSeq(d) \/ d.t = "set"
                        /\ v.t = "set" /\ Len(v.c) = Len(d.c)
                        /\ \A i \in 1..Len(d.c) : \E j \in 1..Len(v.c) : Fits(T.c[1], d.c[i], v.c[j])
                        /\ \A j \in 1..Len(v.c) : \E i \in 1..Len(d.c) : Fits(T.c[1], d.c[i], v.c[j])
      [] T.k = "dict" -> /\ d.t = "dict" /\ v.t = "dict" /\ Len(v.c) = Len(d.c)
                         /\ \A i \in 1..Len(d.c) : Fits(T.c[1], d.c[i].c[1], v.c[i].c[1]) /\ Fits(T.c[2], d.c[i].c[2], v.c[i].c[2])
      [] T.k = "dc" -> \/ d.t = "dc:" \o T.s /\ v = d
                       \/ /\ d.t = "dict" /\ v.t = "dc:" \o T.s /\ Len(v.c) = Len(T.c)
                          /\ \A j \in 1..Len(d.c) : d.c[j].c[1].t = "str" /\ \E i \in 1..Len(T.f) : T.f[i] = d.c[j].c[1].s
                          /\ \A i \in 1..Len(T.c) :
                               LET at == {j \in 1..Len(d.c) : d.c[j].c[1] = Str(T.f[i])} IN
                               IF at = {} THEN T.d[i] # <<>> /\ v.c[i] = T.d[i][1] ELSE \A j \in at : Fits(T.c[i], d.c[j].c[2], v.c[i])
      [] T.k = "union" -> IF Exact(T, d) THEN v = d ELSE \E i \in 1..Len(T.c) : Fits(T.c[i], d, v)

\* ... or be refused.
May0(T, d) ==
    CASE T.k = "object" -> FALSE
      [] T.k = "int" -> ~(d.t \in {"int", "bool"} \/ (d.t = "float" /\ d.s = "" /\ d.n % 1000 = 0) \/ (d.t = "str" /\ d.s \in DOMAIN IntTexts))
      [] T.k = "float" -> ~(d.t \in {"float", "int"} \/ (d.t = "str" /\ d.s \in DOMAIN IntTexts \cup DOMAIN FltTexts \cup Special))
      [] T.k \in {"bool", "str", "none"} -> d.t # T.k
      [] T.k = "path" -> d.t \notin {"path", "str"}
      [] T.k = "dtype" -> ~(d.t = "dtype" \/ (d.t = "str" /\ d.s \in DOMAIN DtypeOf))
      [] T.k = "device" -> ~(d.t = "device" \/ (d.t = "str" /\ d.s \in Devices))
      [] T.k = "enum" -> ~(d.t \in {"str", "enum:" \o T.s} /\ d.s \in EnumOf[T.s])
      [] T.k = "lit" -> ~Has(T, d)
      [] T.k \in {"list", "vtup"} -> ~IsSeq(d) \/ \E i \in 1..Len(d.c) : May0(T.c[1], d.c[i])
      [] T.k = "tup" -> ~IsSeq(d) \/ Len(d.c) # Len(T.c) \/ \E i \in 1..Len(d.c) : May0(T.c[i], d.c[i])
      [] T.k = "set" -> ~(IsSeq(d) \/ d.t = "set") \/ May(T, d.c) \/ \E i \in 1..Len(d.c) : May0(T.c[1], d.c[i])
      [] T.k = "dict" -> d.t # "dict" \/ May(T, [i \in 1..Len(d.c) |-> d.c[i].c[1]]) \/ \E i \in 1..Len(d.c) : May0(T.c[1], d.c[i].c[1]) \/ May0(T.c[2], d.c[i].c[2])
      [] T.k = "dc" -> /\ d.t # "dc:" \o T.s
                       /\ \/ d.t # "dict"
                          \/ \E j \in 1..Len(d.c) : d.c[j].c[1].t # "str" \/ ~\E i \in 1..Len(T.f) : T.f[i] = d.c[j].c[1].s
                          \/ \E i \in 1..Len(T.c) :
                               LET at == {j \in 1..Len(d.c) : d.c[j].c[1] = Str(T.f[i])} IN
                               IF at = {} THEN T.d[i] = <<>> ELSE \E j \in at : May0(T.c[i], d.c[j].c[2])
      [] T.k = "union" -> ~Exact(T, d) /\ \A i \in 1..Len(T.c) : May0(T.c[i], d)

\* The values of the type can be told from their untyped form.
Class(T) == CASE T.k \in {"int", "float"} -> "num" [] T.k \in {"str", "path", "dtype", "device", "enum", "lit"} -> "text"
              [] T.k \in {"list", "vtup", "tup", "set"} -> "seq" [] T.k \in {"dict", "dc"} -> "map" [] OTHER -> T.k
RECURSIVE Plain(_)
Plain(T) ==
    /\ T.k # "object"
    /\ \A i \in 1..Len(T.c) : Plain(T.c[i])
    /\ T.k = "union" =>
         /\ \A i, j \in 1..Len(T.c) : i # j => Class(T.c[i]) # Class(T.c[j]) /\ T.c[i].k # "union"
         /\ \A i, j \in 1..Len(T.c) : Class(T.c[i]) = "num" /\ Class(T.c[j]) = "text" => T.c[j].k \in {"str", "lit"}
===============================================================================
