------------------------------ MODULE Features ------------------------------
(* Features of the sequence tagger. Texts are strings of ASCII characters (others are escaped), with
   the list of their characters beside them where characters matter.
   Token: [v, vc, n, nc, nlen, low, shape, s, e]: text, characters, normalised text, its characters and
   their number, lower case text, shape, range. Feature: [kind, n, ...args, offsets]. *)
EXTENDS Common

Absent == "~absent"
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Join(_, _)
Join(parts, sep) == IF parts = <<>> THEN "" ELSE IF Len(parts) = 1 THEN parts[1]
                    ELSE parts[1] \o sep \o Join(Tail(parts), sep)
Concat(parts) == Join(parts, "")

Stem(stems, w) == IF w \in DOMAIN stems THEN stems[w].v ELSE w
StemLen(stems, w, n) == IF w \in DOMAIN stems THEN stems[w].len ELSE n

(* The text the custom entities are looked for in: normalised (stemmed) tokens with single blanks. *)
Transformed(f, t, stems) == IF f.stem THEN Stem(stems, t.n) ELSE t.n
TransformedLen(f, t, stems) == IF f.stem THEN StemLen(stems, t.n, t.nlen) ELSE t.nlen
CustomQuery(f, toks, stems) == Join([k \in 1..Len(toks) |-> Transformed(f, toks[k], stems)], " ")
RECURSIVE StartOf(_, _, _, _)
StartOf(f, toks, stems, k) == IF k = 1 THEN 0 ELSE StartOf(f, toks, stems, k - 1) + TransformedLen(f, toks[k - 1], stems) + 1
CustomRange(f, toks, stems, k) ==
    LET a == StartOf(f, toks, stems, k) IN [s |-> a, e |-> a + TransformedLen(f, toks[k], stems)]
(* The text the builtin entities are looked for in: the tokens in their places, blanks elsewhere. *)
BuiltinQuery(toks, text) ==
    LET last == IF toks = <<>> THEN 0 ELSE toks[Len(toks)].e
    IN Concat([p \in 1..last |-> IF \E k \in 1..Len(toks) : toks[k].s < p /\ p <= toks[k].e THEN text[p] ELSE " "])

(* Mark of the i-th token in the first match that covers it *)
Mark(scheme, i, covered) ==
    LET first == i = MinOf(covered)
        last == i = MaxOf(covered)
    IN CASE scheme = 0 -> "I-"
         [] scheme = 1 -> IF first THEN "B-" ELSE "I-"
         [] scheme = 2 -> IF first /\ last THEN "U-" ELSE IF first THEN "B-" ELSE IF last THEN "L-" ELSE "I-"
MatchMark(scheme, ranges, matches, i) ==
    LET hits == { m \in 1..Len(matches) : Overlap(matches[m], ranges[i]) }
    IN IF hits = {} THEN Absent
       ELSE Mark(scheme, i, { k \in 1..Len(ranges) : Overlap(ranges[k], matches[MinOf(hits)]) })

NgramWord(f, t, stems) ==
    LET w == IF f.stem THEN Stem(stems, t.n) ELSE t.n
    IN IF f.gaz.g /\ w \notin RangeS(f.gaz.words) THEN "rare_word" ELSE w

Name(f) == CASE f.kind \in {"ngram", "shape_ngram", "prefix", "suffix"} -> f.kind \o "_" \o ToString(f.n)
             [] f.kind \in {"entity_match", "builtin_entity_match", "word_cluster"} -> f.kind \o "_" \o f.name
             [] OTHER -> f.kind
Key(f, o) == IF o = 0 THEN Name(f)
             ELSE Name(f) \o "[" \o (IF o > 0 THEN "+" ELSE "") \o ToString(o) \o "]"

(* The value of a feature for the i-th token *)
Value(f, toks, i, stems) ==
    LET t == toks[i]
        n == Len(toks)
    IN CASE f.kind = "is_digit" -> IF \A c \in RangeS(t.vc) : c \in Digits THEN "1" ELSE Absent
         [] f.kind = "length" -> ToString(Len(t.vc))
         [] f.kind = "is_first" -> IF i = 1 THEN "1" ELSE Absent
         [] f.kind = "is_last" -> IF i = n THEN "1" ELSE Absent
         [] f.kind = "ngram" -> IF i + f.n - 1 > n THEN Absent
                                ELSE Join([k \in 1..f.n |-> NgramWord(f, toks[i + k - 1], stems)], " ")
         [] f.kind = "shape_ngram" -> IF i + f.n - 1 > n THEN Absent
                                      ELSE Join([k \in 1..f.n |-> toks[i + k - 1].shape], " ")
         [] f.kind = "prefix" -> IF f.n > t.nlen THEN Absent ELSE Concat(SubSeq(t.nc, 1, f.n))
         [] f.kind = "suffix" -> IF f.n > t.nlen THEN Absent ELSE Concat(SubSeq(t.nc, t.nlen - f.n + 1, t.nlen))
         [] f.kind = "entity_match" ->
                MatchMark(f.scheme, [k \in 1..n |-> CustomRange(f, toks, stems, k)], f.matches, i)
         [] f.kind = "builtin_entity_match" -> MatchMark(f.scheme, [k \in 1..n |-> [s |-> toks[k].s, e |-> toks[k].e]], f.matches, i)
         [] f.kind = "word_cluster" -> IF t.low \in DOMAIN f.cluster THEN f.cluster[t.low] ELSE Absent

(* The pairs the j-th token must bear for the offsets for which Want(offset): a sequence, order is free *)
Pairs(feats, toks, j, stems, Want(_)) ==
    FlattenSeq([a \in 1..Len(feats) |->
        LET f == feats[a]
            here == SelectSeq(f.offsets, LAMBDA o : Want(o) /\ j + o >= 1 /\ j + o <= Len(toks)
                                                    /\ Value(f, toks, j + o, stems) # Absent)
        IN [b \in 1..Len(here) |-> <<Key(f, here[b]), Value(f, toks, j + here[b], stems)>>]])
=============================================================================
