--------------------------- MODULE AssetCacheDesign ---------------------------
(* The protocol of the download cache, one file system operation at a time,    *)
(* crashing anywhere: it keeps the promises of AssetCache.                     *)
(*                                                                             *)
(* a: the asset directory; d: the directory with what was received; t: the     *)
(* temporary one. Contents: "none", "empty", or [k, v]: "part"ial, "full",     *)
(* or (d) a "file" of version v ("bad": not extractable).                      *)
EXTENDS AssetCache, Sequences, TLC
CONSTANTS Vs, Archive, Depth
VARIABLES a, d, t, pc, r, sv, hits, s, n
vars == <<a, d, t, pc, r, sv, hits, s, n>>
No == [k |-> "none", v |-> ""]
Emp == [k |-> "empty", v |-> ""]
C(k, v) == [k |-> k, v |-> v]
Modes == {"ok", "fail"} \cup (IF Archive THEN {"bad"} ELSE {})
Init == a = No /\ d = No /\ t = No /\ pc = "idle" /\ r = "plain" /\ sv = [m |-> "ok", v |-> ""] /\ hits = 0 /\ s = Fresh /\ n = 0
Go(p) == pc' = p
\* ---- a request ----
Begin == /\ pc = "idle" /\ n < Depth /\ n' = n + 1
         /\ r' \in {"plain", "force", "local"} /\ \E m \in Modes, v \in Vs : sv' = [m |-> m, v |-> v]
         /\ hits' = 0 /\ Go(IF r' = "local" THEN "retrieve" ELSE IF r' = "force" THEN "clean1" ELSE "download")
         /\ UNCHANGED <<a, d, t, s>>
\* Something that may be removed only in part, and a move, which is done or not.
RemoveT(at, next) == pc = at /\ (IF t = No \/ t = Emp THEN t' = No /\ Go(next) ELSE t' \in {No, Emp} /\ Go(IF t' = No THEN next ELSE at)) /\ UNCHANGED <<a, d, r, sv, hits, s, n>>
Clean1 == RemoveT("clean1", "clean2")
Clean2 == pc = "clean2" /\ t' = a /\ a' = No /\ Go("clean3") /\ UNCHANGED <<d, r, sv, hits, s, n>>
Clean3 == RemoveT("clean3", "clean4")
Clean4 == pc = "clean4" /\ t' = d /\ d' = No /\ Go("clean5") /\ UNCHANGED <<a, r, sv, hits, s, n>>
Clean5 == RemoveT("clean5", "download")
Download == /\ pc = "download" /\ Go(IF a # No \/ d \notin {No, Emp} THEN "extract" ELSE "tidy")
            /\ d' = (IF a = No /\ d = Emp THEN No ELSE d) /\ UNCHANGED <<a, t, r, sv, hits, s, n>>
Tidy == RemoveT("tidy", "make")
Make == pc = "make" /\ t' = Emp /\ Go("ask") /\ UNCHANGED <<a, d, r, sv, hits, s, n>>
Ask == pc = "ask" /\ hits' = 1 /\ t' = C("part", sv.v) /\ Go("receive") /\ UNCHANGED <<a, d, r, sv, s, n>>
Receive == /\ pc = "receive"
           /\ IF sv.m = "fail" THEN t' = No /\ Go("error")
              ELSE t' = C("file", IF sv.m = "bad" THEN "bad" ELSE sv.v) /\ Go("install")
           /\ UNCHANGED <<a, d, r, sv, hits, s, n>>
Install == pc = "install" /\ d' = t /\ t' = No /\ Go("extract") /\ UNCHANGED <<a, r, sv, hits, s, n>>
Extract == pc = "extract" /\ (IF d = No THEN a' = a /\ Go("retrieve") ELSE a' = (IF a = No THEN Emp ELSE a) /\ Go("extract2")) /\ UNCHANGED <<d, t, r, sv, hits, s, n>>
Extract2 == /\ pc = "extract2"
            /\ IF d = Emp THEN UNCHANGED <<a, d>> /\ Go("retrieve")
               ELSE IF Archive THEN /\ a' = C("part", d.v) /\ d' = d /\ Go(IF d.v = "bad" THEN "error" ELSE "extract3")
               ELSE /\ a' = C("full", d.v) /\ d' = Emp /\ Go("extract5")
            /\ UNCHANGED <<t, r, sv, hits, s, n>>
Extract3 == pc = "extract3" /\ a' = C("full", d.v) /\ Go("extract4") /\ UNCHANGED <<d, t, r, sv, hits, s, n>>
Extract4 == pc = "extract4" /\ d' = Emp /\ Go("extract5") /\ UNCHANGED <<a, t, r, sv, hits, s, n>>
Extract5 == pc = "extract5" /\ d' = No /\ Go("retrieve") /\ UNCHANGED <<a, t, r, sv, hits, s, n>>
Usable == a.k \in {"part", "full"} /\ (r = "local" => d \in {No, Emp})
Done(ok, v) ==
    /\ s' = After(s, r, sv, ok, v, hits)
    /\ Go(IF ~Allowed(s, r, sv, ok, v, hits) \/ (ok /\ a.k = "part") THEN "broken" ELSE "idle")
    /\ UNCHANGED <<a, d, t, r, sv, hits, n>>
Retrieve == pc = "retrieve" /\ Done(Usable, a.v)
Error == pc = "error" /\ Done(FALSE, "")
Crash == pc \notin {"idle", "broken"} /\ s' = Crashed(s, r, sv, hits) /\ Go("idle") /\ UNCHANGED <<a, d, t, r, sv, hits, n>>
Next == Begin \/ Clean1 \/ Clean2 \/ Clean3 \/ Clean4 \/ Clean5 \/ Download \/ Tidy \/ Make \/ Ask \/ Receive \/ Install \/ Extract \/ Extract2
        \/ Extract3 \/ Extract4 \/ Extract5 \/ Retrieve \/ Error \/ Crash
Spec == Init /\ [][Next]_vars
Kept == pc # "broken"
=============================================================================
