---------------------------- MODULE ParamGroups ----------------------------
(* Which group a parameter belongs to, and the settings it is updated with. *)
(* Names and patterns are sequences of characters; a pattern is also given  *)
(* as the elements it consists of: a character, any character, any text,    *)
(* the end of the name.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* Whether a pattern matches a name from its beginning, up to anywhere in it.
RECURSIVE Fits(_, _)
Fits(p, s) ==
    IF p = <<>> THEN TRUE
    ELSE CASE Head(p) = "$" -> s = <<>> /\ Fits(Tail(p), s)
           [] Head(p) = "*" -> Fits(Tail(p), s) \/ (s # <<>> /\ Fits(p, Tail(s)))
           [] Head(p) = "?" -> s # <<>> /\ Fits(Tail(p), Tail(s))
           [] OTHER -> s # <<>> /\ Head(s) = Head(p) /\ Fits(Tail(p), Tail(s))
Selects(p, name) == p.text = name \/ Fits(p.el, name)

\* The first of the groups that has a pattern that selects the name, or one past the last.
Owner(groups, name) ==
    LET ok == {i \in 1..Len(groups) : \E j \in 1..Len(groups[i].pats) : Selects(groups[i].pats[j], name)} IN
    IF ok = {} THEN Len(groups) + 1 ELSE CHOOSE i \in ok : \A j \in ok : i <= j
Members(groups, names, i) == SelectSeq(names, LAMBDA x : Owner(groups, x) = i)

\* A setting of a group is that of the optimizer, unless the group has its own.
Settle(top, own) == [f \in DOMAIN top |-> IF f \in DOMAIN own /\ own[f] # "default" THEN own[f] ELSE top[f]]

\* What the optimizer is made of: every group in order, whether empty or not, then what is left.
Made(groups, names, top) ==
    LET of(i) == [names |-> Members(groups, names, i), set |-> IF i > Len(groups) THEN top ELSE Settle(top, groups[i].set)]
        all == [i \in 1..(Len(groups) + 1) |-> of(i)] IN
    IF groups # <<>> /\ all[Len(all)].names = <<>> THEN SubSeq(all, 1, Len(groups)) ELSE all
============================================================================
