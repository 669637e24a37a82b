----------------------------- MODULE Featurizer -----------------------------
(* How a text is turned into the features of the intent classifier (C25).
   Token: [s, e, v, n, stem, low]: range, text, normalised, stem of it, lower case. Weights are in hundredths. *)
EXTENDS Rules

\* ---- weighted counts of terms
RECURSIVE JoinLow(_, _, _)
JoinLow(toks, i, j) == IF i = j THEN toks[i].low ELSE toks[i].low \o " " \o JoinLow(toks, i + 1, j)
\* no more words than the longest entry of the clusters has
Ngrams(ev) == LET n == Len(ev.toks) IN UNION { { <<i, j>> : j \in i..MinOf({n, i + ev.longest - 1}) } : i \in 1..n }
\* the terms of a text, as functions from what they come from, so that each counts as many times as it occurs
CountIn(w, seq) == Cardinality({ i \in 1..Len(seq) : seq[i] = w })
TermCount(ev, w) ==
    CountIn(w, [i \in 1..Len(ev.toks) |-> IF ev.stemming THEN ev.toks[i].stem ELSE ev.toks[i].n])
    + CountIn(w, [i \in 1..Len(ev.builtins) |-> "builtinentityfeature" \o ev.names[ev.builtins[i]]])
    + CountIn(w, [i \in 1..Len(ev.customs) |-> "entityfeature" \o ev.names[ev.customs[i]]])
    + (IF ev.clusters = [x \in {} |-> ""] THEN 0
       ELSE Cardinality({ g \in Ngrams(ev) : LET k == JoinLow(ev.toks, g[1], g[2]) IN k \in DOMAIN ev.clusters /\ ev.clusters[k] = w }))
Size(vocab) == IF DOMAIN vocab = {} THEN 0 ELSE MaxOf({ vocab[w] : w \in DOMAIN vocab }) + 1
\* the weight of each position: that of the words at this position
Weights(ev) ==
    [i \in 1..Size(ev.vocab) |->
        LET ws == { w \in DOMAIN ev.vocab : ev.vocab[w] = i - 1 }
        IN FoldSet(LAMBDA w, acc : acc + TermCount(ev, w) * ev.idf[i], 0, ws)]
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
Sqrt(n) == Root(n, 0, 46340)
\* hundred thousandths of the unit vector along ws, with an error of some units (numbers are of 32 bits)
Scale(n) == Sqrt(2000000000 \div n)
Unit(ws) ==
    LET n == Sum([i \in 1..Len(ws) |-> ws[i] * ws[i]])
        k == Scale(IF n = 0 THEN 1 ELSE n)
        l == Sqrt(n * k * k)
    IN [i \in 1..Len(ws) |-> IF n = 0 THEN 0
                              ELSE ((ws[i] * k * 10000) \div l) * 10 + (((ws[i] * k * 10000) % l) * 10) \div l]

\* ---- pairs of words
\* the words of the text where the entities are replaced by their name, without the words set aside
RECURSIVE Enriched(_, _, _)
Enriched(toks, i, kept) ==
    IF i > Len(toks) THEN <<>>
    ELSE LET cov == Covering(kept, 1..Len(kept), toks[i])
         IN IF cov = {} THEN <<[v |-> toks[i].v, r |-> toks[i].r]>> \o Enriched(toks, i + 1, kept)
            ELSE LET k == CHOOSE k \in cov : TRUE
                 IN (IF kept[k].s = toks[i].s THEN kept[k].phwords ELSE <<>>) \o Enriched(toks, i + 1, kept)
PairWords(ev) == SelectSeq(Enriched(ev.toks, 1, Kept(ev.ents)), LAMBDA t : ~(ev.filter /\ t.v \in RangeS(ev.stops)) /\ t.v # ev.unknown)
\* window: how far the second word of a pair may be from the first, -1: anywhere in the text
InWindow(window, i, j) == i < j /\ (window < 0 \/ j - i <= window)
Pair(keep, a, b) == IF keep \/ a.r < b.r THEN <<a.v, b.v>> ELSE <<b.v, a.v>>
Pairs(ev) == LET ws == PairWords(ev)
             IN { Pair(ev.keep, ws[p[1]], ws[p[2]]) : p \in { q \in (1..Len(ws)) \X (1..Len(ws)) : InWindow(ev.window, q[1], q[2]) } }
Indicators(ev) == LET ps == Pairs(ev) IN [i \in 1..Len(ev.pairs) |-> IF ev.pairs[i] \in ps THEN 100000 ELSE 0]
=============================================================================
