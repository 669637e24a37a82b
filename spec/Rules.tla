------------------------------- MODULE Rules -------------------------------
(* The rule-based parsers, on concrete texts.
   Texts are lists of codes; low is the text with every letter in lower case. Token: [s, e, n, low]: range,
   normalised text and lower case text (escaped). Entity: [s, e, ent, ph, phlow]: range, name, placeholder
   (codes, codes in lower case). Entities come in the order the parsers found them, builtin ones first. *)
EXTENDS Common

\* ---- entities that do not overlap: longest first, then in the order they were found
RECURSIVE Pick(_, _, _)
Pick(ents, left, chosen) ==
    IF left = {} THEN chosen
    ELSE LET len(k) == ents[k].e - ents[k].s
             best == CHOOSE k \in left : \A j \in left : len(k) > len(j) \/ (len(k) = len(j) /\ k <= j)
         IN Pick(ents, left \ {best},
                 IF \E c \in chosen : Overlap(ents[c], ents[best]) THEN chosen ELSE chosen \cup {best})
Kept(ents) ==                         \* in the order of the text
    LET ks == SetToSortSeq(Pick(ents, 1..Len(ents), {}), LAMBDA a, b : ents[a].s < ents[b].s)
    IN [k \in 1..Len(ks) |-> ents[ks[k]]]

\* ---- patterns
\* Text with the entities replaced by their placeholders; kept: in order, without overlaps
RECURSIVE Formatted(_, _, _)
Formatted(low, kept, from) ==
    IF kept = <<>> THEN SubSeq(low, from + 1, Len(low))
    ELSE Sub(low, from, Head(kept).s) \o Head(kept).phlow \o Formatted(low, Tail(kept), Head(kept).e)
\* What each position of the formatted text is in the text: [s, e] of the replaced ranges
Replaced(kept) ==
    [k \in 1..Len(kept) |->
        LET before == Sum([j \in 1..(k - 1) |-> Len(kept[j].phlow) - (kept[j].e - kept[j].s)])
        IN [s |-> kept[k].s + before, e |-> kept[k].s + before + Len(kept[k].phlow), from |-> kept[k]]]
Back(kept, s, e) ==
    LET rs == Replaced(kept)
        hit == { k \in 1..Len(rs) : rs[k].s = s /\ rs[k].e = e }
        shift(p) == LET done == { k \in 1..Len(rs) : rs[k].e <= p }
                    IN IF done = {} THEN 0 ELSE rs[MaxOf(done)].from.e - rs[MaxOf(done)].e
    IN IF hit # {} THEN LET k == CHOOSE k \in hit : TRUE IN [s |-> rs[k].from.s, e |-> rs[k].from.e]
       ELSE [s |-> s + shift(s), e |-> e + shift(e)]
\* Blanks instead of everything but the words that count
Cleaned(low, toks, stops) ==
    [p \in 1..Len(low) |-> IF \E k \in 1..Len(toks) : toks[k].s < p /\ p <= toks[k].e /\ toks[k].n \notin stops
                           THEN low[p] ELSE 32]
\* Does a pattern match the whole text? Its pieces follow each other with blanks anywhere between them. Piece:
\* [alts, slot, opt]: the literals it stands for, in order of preference, the slot it is (or ""), whether it can be
\* left out. wide: at most one [slot, a, b], a group around the pieces a to b.
RECURSIVE SkipBlanks(_, _)
SkipBlanks(t, p) == IF p < Len(t) /\ t[p + 1] = 32 THEN SkipBlanks(t, p + 1) ELSE p
NoMatch == [ok |-> FALSE, groups |-> <<>>]
RECURSIVE MatchFrom(_, _, _, _)
RECURSIVE MatchAlts(_, _, _, _, _)
\* spans: for each piece passed, [s, e], or [s |-> -1, e |-> -1] when left out
MatchFrom(pieces, t, pos, spans) ==
    LET p == SkipBlanks(t, pos) IN
    IF Len(spans) = Len(pieces) THEN (IF p = Len(t) THEN [ok |-> TRUE, spans |-> spans] ELSE [ok |-> FALSE, spans |-> <<>>])
    ELSE LET piece == pieces[Len(spans) + 1]
             taken == MatchAlts(pieces, piece.alts, t, p, spans)
         IN IF taken.ok \/ ~piece.opt THEN taken
            ELSE MatchFrom(pieces, t, p, Append(spans, [s |-> -1, e |-> -1]))
MatchAlts(pieces, alts, t, p, spans) ==
    IF alts = <<>> THEN [ok |-> FALSE, spans |-> <<>>]
    ELSE LET lit == Head(alts)
             rest == IF p + Len(lit) <= Len(t) /\ Sub(t, p, p + Len(lit)) = lit
                     THEN MatchFrom(pieces, t, p + Len(lit), Append(spans, [s |-> p, e |-> p + Len(lit)]))
                     ELSE [ok |-> FALSE, spans |-> <<>>]
         IN IF rest.ok THEN rest ELSE MatchAlts(pieces, Tail(alts), t, p, spans)
\* of groups that lie one in the other, the wide one is kept
Match(pattern, t) ==
    LET m == MatchFrom(pattern.pieces, t, 0, <<>>)
        pieces == pattern.pieces
        around == [k \in 1..Len(pattern.wide) |-> [slot |-> pattern.wide[k].slot, s |-> m.spans[pattern.wide[k].a].s,
                                                   e |-> m.spans[pattern.wide[k].b].e]]
        inside(k) == \E j \in 1..Len(pattern.wide) : pattern.wide[j].a <= k /\ k <= pattern.wide[j].b
        own == SelectSeq([k \in 1..Len(pieces) |-> [k |-> k, slot |-> pieces[k].slot, s |-> m.spans[k].s, e |-> m.spans[k].e]],
                         LAMBDA g : g.slot # "" /\ g.s >= 0 /\ ~inside(g.k))
    IN IF ~m.ok THEN NoMatch
       ELSE [ok |-> TRUE, groups |-> around \o [k \in 1..Len(own) |-> [slot |-> own[k].slot, s |-> own[k].s, e |-> own[k].e]]]

\* The slots of the first pattern of an intent that matches, as [slot, s, e]; the text as given comes first
RECURSIVE FirstMatch(_, _, _, _)
FirstMatch(patterns, raw, formatted, kept) ==
    IF patterns = <<>> THEN NoMatch
    ELSE LET a == Match(Head(patterns), raw)
             b == Match(Head(patterns), formatted)
         IN IF a.ok THEN a
            ELSE IF b.ok THEN [ok |-> TRUE, groups |-> [k \in 1..Len(b.groups) |->
                     LET r == Back(kept, b.groups[k].s, b.groups[k].e)
                     IN [slot |-> b.groups[k].slot, s |-> r.s, e |-> r.e]]]
            ELSE FirstMatch(Tail(patterns), raw, formatted, kept)

\* ---- tables of utterances
Covering(ents, S, t) == { k \in S : ents[k].s <= t.s /\ t.e <= ents[k].e }
\* The words of a text where the entities S (indexes into kept, sorted) are replaced
RECURSIVE Words(_, _, _, _, _)
Words(toks, i, kept, S, stops) ==
    IF i > Len(toks) THEN <<>>
    ELSE LET cov == Covering(kept, S, toks[i])
             next == Words(toks, i + 1, kept, S, stops)
         IN IF cov = {} THEN (IF toks[i].n \in stops THEN next ELSE <<toks[i].low>> \o next)
            ELSE LET k == CHOOSE k \in cov : TRUE
                 IN IF kept[k].s = toks[i].s THEN kept[k].phwords \o next ELSE next
RECURSIVE JoinWords(_)
JoinWords(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o JoinWords(Tail(ws))
\* All the ways to read a text as an utterance of the table of an intent: sets of lists of slots
Lookups(table, intent, toks, kept, stops) ==
    UNION { LET key == JoinWords(Words(toks, 1, kept, S, stops))
                list == SetToSortSeq(S, <)
            IN IF key \in DOMAIN table /\ table[key].intent = intent /\ Len(table[key].slots) = Len(list)
               THEN { [k \in 1..Len(list) |-> [slot |-> table[key].slots[k], s |-> kept[list[k]].s, e |-> kept[list[k]].e,
                                               entity |-> kept[list[k]].ent]] }
               ELSE {}
          : S \in SUBSET (1..Len(kept)) }

\* ---- the answer: weights of the intents found, in 840ths (exact up to 7 slots)
Weight(n) == 840 \div (n + 1)
StopsOf(ev, i) == IF ~ev.ignore THEN {} ELSE RangeS(ev.stops) \ (IF i \in DOMAIN ev.keep THEN RangeS(ev.keep[i]) ELSE {})
=============================================================================
