---------------------------- MODULE MetricBagGen ----------------------------
EXTENDS MetricBag, Json
CONSTANTS NameSet, Kinds, Vals, Depth, Emitting
VARIABLES x, hist
vars == <<x, hist>>
Init == x = InitX /\ hist = <<>>
Log(a) == hist' = Append(hist, a)

AddM == \E n \in NameSet, k \in Kinds :
          IF CanAdd(x, n) THEN x' = Add(x, n, k) /\ Log([a |-> "add", n |-> n, k |-> k])
          ELSE x' = x /\ k = x.cur[n].k /\ Log([a |-> "add", n |-> n, k |-> k])
Upd == \E n \in Names(x), v \in Vals, w \in {1, 2} :
          x' = Update(x, n, v, w) /\ Log([a |-> "upd", n |-> n, v |-> v, w |-> w])
Beg == x' = (IF x.orig = <<>> THEN Begin(x) ELSE x) /\ Log([a |-> "begin"])
Com == x' = (IF x.orig # <<>> THEN Commit(x) ELSE x) /\ Log([a |-> "commit"])
Rol == x' = (IF x.orig # <<>> THEN Rollback(x) ELSE x) /\ Log([a |-> "rollback"])
Res == Names(x) # {} /\ x' = Reset(x) /\ Log([a |-> "reset"])
Sav == Len(x.saved) < 2 /\ x' = Save(x) /\ Log([a |-> "save"])
Loa == \E i \in 1..Len(x.saved) : Fits(x, i) /\ x' = Load(x, i) /\ Log([a |-> "load", i |-> i])
Next == Len(hist) < Depth /\ (AddM \/ Upd \/ Beg \/ Com \/ Rol \/ Res \/ Sav \/ Loa)
Spec == Init /\ [][Next]_vars

\* Last beginning of a transaction that is still open in history h.
RollsBack == [][hist'[Len(hist')].a = "rollback" /\ x.orig # <<>> => x'.cur = x.orig[1] /\ x'.orig = <<>>]_vars
\* Within a transaction its beginning is never changed.
Keeps == [][x.orig # <<>> /\ x'.orig # <<>> => x'.orig = x.orig]_vars
NeverNested == Len(x.orig) <= 1
SavedStay == [][\A i \in 1..Len(x.saved) : x'.saved[i] = x.saved[i]]_vars
Emit == Emitting /\ Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
=============================================================================
