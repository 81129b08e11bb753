-------------------------- MODULE TokenizerTrace ---------------------------
(* Recorded sessions with tokenizers: loading, creating encoders and         *)
(* decoders, using any of them at any time.                                  *)
EXTENDS Tokenizer, Batch
VARIABLES cur, encs, decs
vars == <<tid, l, cur, encs, decs>>
V(i) == Cfg.vs[i]

\* The token that plays a role: as the family says, otherwise as the tokenizer itself says.
Role(w, r) == IF w.says[r] # "" THEN IndexOf(w, w.says[r]) ELSE IF w.own[r] # "" THEN IndexOf(w, w.own[r]) ELSE -1
Load ==
    /\ Ev.op = "load"
    /\ LET w == V(Ev.v) IN
       /\ Exp("error of loading", Ev.err, "")
       /\ Exp("size of the vocabulary", Ev.info.size, Size(w))
       /\ \A r \in {"unk", "bos", "eos", "boh", "eoh"} : Exp("index of " \o r, Ev.info[r], Role(w, r))
       /\ Exp("index of pad", Ev.info.pad, IF Role(w, "pad") = Role(w, "eos") THEN -1 ELSE Role(w, "pad"))
    /\ cur' = Ev.v
    /\ UNCHANGED <<encs, decs>>
Bad ==
    /\ Ev.op = "bad"
    /\ Exp("error of loading what is " \o Ev.what, Ev.err, IF Ev.what = "missing" THEN "system" ELSE "model")
    /\ UNCHANGED <<cur, encs, decs>>
NewEncoder ==
    /\ Ev.op = "encoder"
    /\ LET w == V(cur)
           fr == IF Ev.raw THEN [err |-> "", pre |-> <<>>, suf |-> <<>>]
                 ELSE IF Ev.other /\ Cfg.family # "hg" THEN [err |-> "refused", pre |-> <<>>, suf |-> <<>>]
                 ELSE Frame(Cfg.family, Ev.mode, Role(w, "bos"), Role(w, "eos")) IN
       /\ Exp("error of creating an encoder for mode " \o Ev.mode, Ev.err, fr.err)
       /\ IF fr.err # "" THEN UNCHANGED encs
          ELSE /\ Exp("prefix of mode " \o Ev.mode, Ev.pre, fr.pre)
               /\ Exp("suffix of mode " \o Ev.mode, Ev.suf, fr.suf)
               /\ encs' = Append(encs, [v |-> cur, pre |-> fr.pre, suf |-> fr.suf, dev |-> Ev.dev])
    /\ UNCHANGED <<cur, decs>>
NewDecoder ==
    /\ Ev.op = "decoder"
    /\ decs' = Append(decs, [v |-> cur, skip |-> Ev.skip])
    /\ UNCHANGED <<cur, encs>>
Use ==
    /\ Ev.op = "encode"
    /\ LET c == encs[Ev.k]
           want == c.pre \o Encode(V(c.v), Ev.text) \o c.suf IN
       /\ Exp("error of encoding", Ev.err, "")
       /\ Exp("device", Ev.dev, c.dev)
       /\ Exp("number of indices", Ev.n, Len(want))
       /\ IF c.dev = "cpu" THEN Exp("indices", Ev.ids, want) ELSE TRUE
       /\ Exp("tokens", Ev.toks, [i \in 1..Len(want) |-> BytesOf(V(c.v), want[i])])
    /\ UNCHANGED <<cur, encs, decs>>
Undo ==
    /\ Ev.op = "decode"
    /\ LET d == decs[Ev.k] IN
       /\ Exp("error of decoding", Ev.err, "")
       /\ Exp("text", Ev.text, Decode(V(d.v), Ev.ids, d.skip))
    /\ UNCHANGED <<cur, encs, decs>>
Reference ==
    /\ Ev.op = "ref"
    /\ Exp("the card referred to", Ev.got, Resolve(Ev.cards, Ev.start))
    /\ UNCHANGED <<cur, encs, decs>>
Init == BatchInit /\ cur = 0 /\ encs = <<>> /\ decs = <<>>
Next == BatchMore /\ (Load \/ Bad \/ NewEncoder \/ NewDecoder \/ Use \/ Undo \/ Reference) /\ BatchStep
Spec == Init /\ [][Next]_vars
============================================================================
