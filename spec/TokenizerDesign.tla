-------------------------- MODULE TokenizerDesign --------------------------
(* All small vocabularies over two bytes and a space, and all small texts:   *)
(* no merge loses a byte, the result cannot be merged any further, and the   *)
(* text comes back, without its special tokens if so asked.                  *)
EXTENDS Tokenizer
CONSTANTS MaxText, MaxToks, Longest
Byte == {0, 1, Space}
Texts(n) == UNION {[1..m -> Byte] : m \in 0..n}
\* Longer tokens over the two bytes.
Long == {t \in UNION {[1..m -> {0, 1}] : m \in 2..Longest} : TRUE}
Id(b) == IF b = Space THEN 2 ELSE b
ByteTable == [i \in 1..33 |-> IF i - 1 \in Byte THEN Id(i - 1) ELSE 999]
VARIABLES v, text, ids, done, told
vars == <<v, text, ids, done, told>>
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : f[i] = f[j] => i = j}
TokSets == {S \in SUBSET Long : Cardinality(S) <= MaxToks}
\* The text [1, 0, 1] is a special token, as well.
Special(n) == <<[id |-> 3 + n, b |-> <<1, 0, 1>>, name |-> "x"]>>
TT(p) == [kind |-> "tt", byte |-> ByteTable, toks |-> [i \in DOMAIN p |-> [id |-> 2 + i, b |-> p[i]]], merges |-> <<>>, specials |-> Special(Len(p))]
\* Merges of tokens that exist: of a byte and the rest, or of the rest and a byte.
HG(p, side) ==
    LET w == TT(p)
        idof(b) == IF Len(b) = 1 THEN b[1] ELSE LET t == {i \in DOMAIN p : p[i] = b} IN IF t = {} THEN -1 ELSE 2 + (CHOOSE i \in t : TRUE)
        cut(b) == IF side = "left" THEN 1 ELSE Len(b) - 1
        m(b) == [x |-> idof(SubSeq(b, 1, cut(b))), y |-> idof(SubSeq(b, cut(b) + 1, Len(b))), z |-> idof(b)] IN
    [w EXCEPT !.kind = "hg", !.merges = SelectSeq([i \in DOMAIN p |-> m(p[i])], LAMBDA q : q.x # -1 /\ q.y # -1)]
Init == /\ \E S \in TokSets : \E p \in Perms(S) : v \in {TT(p), HG(p, "left"), HG(p, "right")}
        /\ text \in Texts(MaxText)
        /\ ids = Singles(v, text) /\ done = FALSE /\ told = <<>>
\* One merge at a time, as if the whole text were a single piece.
Merge == ~done /\ NextMerge(v, ids) # 0 /\ ids' = Merged(v, ids, NextMerge(v, ids)) /\ UNCHANGED <<v, text, done, told>>
Finish == ~done /\ NextMerge(v, ids) = 0 /\ done' = TRUE /\ told' = Encode(v, text) /\ UNCHANGED <<v, text, ids>>
Next == Merge \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Without(_)
\* The text without the special token, found from the left.
Without(s) == IF Len(s) < 3 THEN s ELSE IF SubSeq(s, 1, 3) = <<1, 0, 1>> THEN Without(SubSeq(s, 4, Len(s))) ELSE <<Head(s)>> \o Without(Tail(s))
NoByteLost == Decode(v, ids, FALSE) = text
RoundTrip == done => Decode(v, told, FALSE) = text /\ Decode(v, told, TRUE) = Without(text)
InRange == \A i \in 1..Len(told) : told[i] \in 0..(Span(v) - 1)
Minimal == done => NextMerge(v, ids) = 0
\* Spaces and special tokens are boundaries: what is on either side is encoded by itself.
Local == done => \A i \in 1..(Len(text) - 1) :
            (text[i] = Space) # (text[i + 1] = Space)
            => Encode(v, text) = Encode(v, SubSeq(text, 1, i)) \o Encode(v, SubSeq(text, i + 1, Len(text)))
\* A prompt and its response frame what the default mode frames at once.
Frames == \A f \in {"llama", "qwen", "olmo", "hg"} :
            LET d == Frame(f, "default", 7, 8) p == Frame(f, "prompt", 7, 8) r == Frame(f, "prompt_response", 7, 8) a == Frame(f, "as_is", 7, 8) IN
            /\ d.pre = p.pre /\ d.suf = r.suf /\ p.suf = <<>> /\ r.pre = <<>> /\ a.pre = <<>> /\ a.suf = <<>>
            /\ d = Frame(f, "", 7, 8)
Ends == <>done
=============================================================================
