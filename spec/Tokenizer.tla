----------------------------- MODULE Tokenizer -----------------------------
(* Text to indices and back.  Text is a sequence of bytes.  A vocabulary v   *)
(* has an index for every byte (v.byte), longer tokens (v.toks) and special  *)
(* tokens (v.specials).  Which adjacent tokens are merged next is a matter   *)
(* of the merged token's index (kind "tt") or of an explicit list of merges  *)
(* (kind "hg").                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

IsSpecial(v, id) == \E i \in 1..Len(v.specials) : v.specials[i].id = id
BytesOf(v, id) ==
    LET t == {i \in 1..Len(v.toks) : v.toks[i].id = id}
        s == {i \in 1..Len(v.specials) : v.specials[i].id = id}
        b == {i \in 1..Len(v.byte) : v.byte[i] = id} IN
    IF t # {} THEN v.toks[CHOOSE i \in t : TRUE].b
    ELSE IF s # {} THEN v.specials[CHOOSE i \in s : TRUE].b
    ELSE IF b # {} THEN <<(CHOOSE i \in b : TRUE) - 1>> ELSE <<-1>>

\* What two adjacent tokens merge into, and how early: <<priority, index>>, or nothing.
MergeOf(v, x, y) ==
    IF v.kind = "tt" THEN
        LET t == {i \in 1..Len(v.toks) : v.toks[i].b = BytesOf(v, x) \o BytesOf(v, y)} IN
        IF t = {} THEN <<>> ELSE LET i == CHOOSE i \in t : TRUE IN <<v.toks[i].id, v.toks[i].id>>
    ELSE
        LET t == {i \in 1..Len(v.merges) : v.merges[i].x = x /\ v.merges[i].y = y} IN
        IF t = {} THEN <<>> ELSE LET i == CHOOSE i \in t : \A j \in t : i <= j IN <<i, v.merges[i].z>>

\* The next merge: of the earliest priority, the leftmost.  0 if there is none.
NextMerge(v, s) ==
    LET ms == [i \in 1..(Len(s) - 1) |-> MergeOf(v, s[i], s[i + 1])]
        ok == {i \in DOMAIN ms : ms[i] # <<>>} IN
    IF ok = {} THEN 0
    ELSE CHOOSE i \in ok : \A j \in ok : ms[i][1] < ms[j][1] \/ (ms[i][1] = ms[j][1] /\ i <= j)
Merged(v, s, i) == SubSeq(s, 1, i - 1) \o <<MergeOf(v, s[i], s[i + 1])[2]>> \o SubSeq(s, i + 2, Len(s))
RECURSIVE Bpe(_, _)
Bpe(v, s) == LET i == NextMerge(v, s) IN IF i = 0 THEN s ELSE Bpe(v, Merged(v, s, i))
Singles(v, b) == [i \in 1..Len(b) |-> v.byte[b[i] + 1]]

\* A piece of text that is a token as it is needs no merges, where ranks are all there is.
Piece(v, b) ==
    LET t == {i \in 1..Len(v.toks) : v.toks[i].b = b} IN
    IF v.kind = "tt" /\ t # {} THEN <<v.toks[CHOOSE i \in t : TRUE].id>> ELSE Bpe(v, Singles(v, b))

\* Tokens do not reach from a word into a space: runs of either are encoded each by itself.
Space == 32
RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF i = Len(s) \/ ((s[i] = Space) # (s[i + 1] = Space)) THEN i ELSE RunEnd(s, i + 1)
RECURSIVE Plain(_, _)
Plain(v, s) == IF s = <<>> THEN <<>> ELSE LET k == RunEnd(s, 1) IN Piece(v, SubSeq(s, 1, k)) \o Plain(v, SubSeq(s, k + 1, Len(s)))

\* Special tokens are found first.
At(v, s, i) == {k \in 1..Len(v.specials) : LET b == v.specials[k].b IN i + Len(b) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(b) - 1) = b}
RECURSIVE Scan(_, _, _)
Scan(v, s, i) ==
    IF i > Len(s) THEN Plain(v, s)
    ELSE LET ks == At(v, s, i) IN
         IF ks = {} THEN Scan(v, s, i + 1)
         ELSE LET k == CHOOSE k \in ks : \A m \in ks : Len(v.specials[m].b) <= Len(v.specials[k].b) IN
              Plain(v, SubSeq(s, 1, i - 1)) \o <<v.specials[k].id>> \o Scan(v, SubSeq(s, i + Len(v.specials[k].b), Len(s)), 1)
Encode(v, s) == Scan(v, s, 1)

RECURSIVE Decode(_, _, _)
Decode(v, ids, skip) ==
    IF ids = <<>> THEN <<>>
    ELSE (IF skip /\ IsSpecial(v, Head(ids)) THEN <<>> ELSE BytesOf(v, Head(ids))) \o Decode(v, Tail(ids), skip)

AllIds(v) == {v.byte[i] : i \in 1..Len(v.byte)} \cup {v.toks[i].id : i \in 1..Len(v.toks)} \cup {v.specials[i].id : i \in 1..Len(v.specials)}
Span(v) == 1 + (CHOOSE m \in AllIds(v) : \A n \in AllIds(v) : n <= m)
\* What models are sized to: all indices, except those of tokens added to a ready-made vocabulary.
Size(v) == IF v.kind = "hg" THEN Len(v.byte) + Len(v.toks) ELSE Span(v)

\* The index of a special token, -1 if there is none of that name.
IndexOf(v, name) ==
    LET s == {i \in 1..Len(v.specials) : v.specials[i].name = name} IN IF s = {} THEN -1 ELSE v.specials[CHOOSE i \in s : TRUE].id

Modes == {"", "default", "prompt", "prompt_response", "as_is"}
\* What a family puts before and after the text; "refused" where it knows no such mode.
Frame(family, mode, bos, eos) ==
    LET bosd == family \in {"llama", "gemma"}
        eosd == family \in {"llama", "qwen", "olmo"}
        open == IF bosd /\ mode \in {"", "default", "prompt"} THEN <<bos>> ELSE <<>>
        shut == IF eosd /\ mode \in {"", "default", "prompt_response"} THEN <<eos>> ELSE <<>> IN
    IF family = "hg" THEN [err |-> "", pre |-> <<>>, suf |-> <<>>]
    ELSE IF mode \notin Modes \/ (family = "gemma" /\ mode = "prompt_response") THEN [err |-> "refused", pre |-> <<>>, suf |-> <<>>]
    ELSE [err |-> "", pre |-> open, suf |-> shut]

\* Following the references of tokenizer cards: to the one that refers to no other.
RECURSIVE Follow(_, _, _)
Follow(refs, name, seen) ==
    LET c == CHOOSE i \in 1..Len(refs) : refs[i].name = name  to == refs[c].to IN
    IF to = "" THEN name
    ELSE IF ~\E i \in 1..Len(refs) : refs[i].name = to THEN "missing"
    ELSE IF to \in seen THEN "circular"
    ELSE Follow(refs, to, seen \cup {to})
Resolve(refs, name) == LET r == Follow(refs, name, {name}) IN IF r \in {"missing", "circular"} THEN "refused" ELSE r
=============================================================================
