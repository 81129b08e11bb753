------------------------------- MODULE Scopes -------------------------------
(* Per-thread scopes for gangs, device and data type.                         *)
(*   x.scopes[t] : the open scopes of thread t, outermost first; each is       *)
(*       [k |-> "gang", g |-> gang, meta |-> BOOLEAN]                          *)
(*       [k |-> "dev",  d |-> device]  or  [k |-> "dtype", d |-> type]         *)
(*   x.deft : device -> gang, the process-wide defaults                        *)
(* Gangs are numbered; DevOf says which device a gang lives on.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Devices == {"cpu", "cuda:0", "meta"}
DevOf(g) == IF g \in {3, 4} THEN "cuda:0" ELSE "cpu"
NoDefault == 0

InitX(threads) == [scopes |-> [t \in threads |-> <<>>], deft |-> [d \in Devices |-> NoDefault]]

\* The innermost open scope of the thread that satisfies P.
Innermost(q, P(_)) == LET I == {i \in 1..Len(q) : P(q[i])}
                      IN  IF I = {} THEN <<>> ELSE <<q[CHOOSE i \in I : \A j \in I : j <= i]>>

CurDevice(x, t) == LET s == Innermost(x.scopes[t], LAMBDA c : c.k = "dev")
                   IN  IF s = <<>> THEN "cpu" ELSE s[1].d
CurType(x, t) == LET s == Innermost(x.scopes[t], LAMBDA c : c.k = "dtype")
                 IN  IF s = <<>> THEN "float32" ELSE s[1].d

\* <<"gang", number>>, or <<"local", device>> for the stand-in.
Default(x, d) == IF x.deft[d] # NoDefault THEN <<"gang", x.deft[d]>>
                 ELSE <<"local", IF d = "meta" THEN "cpu" ELSE d>>
Current(x, t, d) ==
    LET s == Innermost(x.scopes[t], LAMBDA c : c.k = "gang" /\ (DevOf(c.g) = d \/ (c.meta /\ d = "meta")))
    IN  IF s = <<>> THEN Default(x, d) ELSE <<"gang", s[1].g>>

Enter(x, t, s) == [x EXCEPT !.scopes[t] = Append(@, s)]
Leave(x, t) == [x EXCEPT !.scopes[t] = SubSeq(@, 1, Len(@) - 1)]
SetDefault(x, g, meta) ==
    [x EXCEPT !.deft = [d \in Devices |-> IF d = DevOf(g) \/ (meta /\ d = "meta") THEN g ELSE @[d]]]

\* Everything thread t can see.
View(x, t) == [cur  |-> [d \in Devices |-> Current(x, t, d)],
               here |-> Current(x, t, CurDevice(x, t)),
               def  |-> [d \in Devices |-> Default(x, d)],
               dev  |-> CurDevice(x, t), dtype |-> CurType(x, t)]
=============================================================================
