--------------------------------- MODULE Rng ---------------------------------
(* A bag of random number generators. The state of a generator is the stream   *)
(* it is on and what was drawn from it so far.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
At(stream) == [st |-> stream, h |-> <<>>]
\* bag: gens (sequence of states), scopes (stack of saved gens), slots (saved states), n (fresh streams so far)
InitB(n) == [gens |-> [g \in 1..n |-> At("init" \o ToString(g))], scopes |-> <<>>, slots |-> <<>>, n |-> 0]
Fits(seed) == seed \notin {"-1", "4294967296"}

Draw(b, g, kind) == [b EXCEPT !.gens[g].h = Append(@, kind)]
Manual(b, seed) == [b EXCEPT !.gens = [g \in DOMAIN @ |-> At(seed)]]
Seed(b) == [b EXCEPT !.gens = [g \in DOMAIN @ |-> At("fresh" \o ToString(b.n + 1))], !.n = @ + 1]
Enter(b, seed) == [Manual(b, seed) EXCEPT !.scopes = Append(@, b.gens)]
Leave(b) == [b EXCEPT !.gens = b.scopes[Len(b.scopes)], !.scopes = SubSeq(@, 1, Len(@) - 1)]
Save(b) == [b EXCEPT !.slots = Append(@, b.gens)]
Load(b, i) == [b EXCEPT !.gens = b.slots[i]]
=============================================================================
