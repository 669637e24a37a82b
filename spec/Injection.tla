------------------------------ MODULE Injection ------------------------------
(* Values injected into the entities of an engine directory (C21, C22, C23).
   What an entity knows is a sequence of batches, the most recent first, the last one being what was trained. A batch is a set
   of [k, r, own]: the words k of a value, the value r it resolves to, and whether these words are the value as it was given
   rather than the stems of its words. *)
EXTENDS Common

\* the forms under which a value [low, stem, r] is kept: 0: stems only, 1: as it is, 2: both
Forms(usage, v) == CASE usage = 0 -> { v.stem } [] usage = 1 -> { v.low } [] usage = 2 -> { v.low, v.stem }
Batch(usage, vs) == UNION { { [k |-> f, r |-> v.r, own |-> usage # 2 \/ f = v.low] : f \in Forms(usage, v) } : v \in vs }

\* an injection of the values vs to an entity that knows b
Inject(usage, b, vs, vanilla) ==
    IF vs = {} THEN b ELSE << Batch(usage, vs) >> \o (IF vanilla THEN << b[Len(b)] >> ELSE b)

\* ---------------------------------------------------------------- what is found in a text
Matches(b, ws, i) == { v \in UNION { b[j] : j \in 1..Len(b) } :
                           v.k # <<>> /\ i + Len(v.k) - 1 <= Len(ws) /\ SubSeq(ws, i, i + Len(v.k) - 1) = v.k }
\* the values to which the words from i to i + n - 1 resolve: those of the most recent batch that has them,
\* rather as they were given than by their stems
Resolve(b, k) == LET js == { j \in 1..Len(b) : \E v \in b[j] : v.k = k }
                     vs == { x \in b[MinOf(js)] : x.k = k }
                     mine == { x \in vs : x.own }
                 IN { v.r : v \in IF mine # {} THEN mine ELSE vs }
\* all the values that these words may be: none is forgotten because another shares its words
Shared(b, k) == { v.r : v \in { x \in UNION { b[j] : j \in 1..Len(b) } : x.k = k } }
RECURSIVE Find(_, _, _)
Find(b, ws, i) ==                                   \* the longest values, from left to right
    IF i > Len(ws) THEN <<>>
    ELSE LET ms == Matches(b, ws, i) IN
         IF ms = {} THEN Find(b, ws, i + 1)
         ELSE LET n == MaxOf({ Len(v.k) : v \in ms })
              IN << [f |-> i, l |-> i + n - 1, rs |-> Resolve(b, SubSeq(ws, i, i + n - 1)),
                   all |-> Shared(b, SubSeq(ws, i, i + n - 1))] >> \o Find(b, ws, i + n)

\* the answer got to the question toks = <<[w, s, e]>> is the one of an entity that knows b; up to sa other values are named
Answers(b, toks, got, sa) ==
    LET found == Find(b, [i \in 1..Len(toks) |-> toks[i].w], 1)
    IN /\ Len(got) = Len(found)
       /\ \A i \in 1..Len(got) : got[i].s = toks[found[i].f].s /\ got[i].e = toks[found[i].l].e /\ got[i].r \in found[i].rs
                                       /\ LET o == got[i].others  n == Cardinality(found[i].all) - 1
                                          IN /\ Len(o) = (IF n < sa THEN n ELSE sa)
                                             /\ Cardinality(RangeS(o)) = Len(o) /\ RangeS(o) \subseteq found[i].all \ {got[i].r}
\* the whole text is the value of a slot
AnswersSlot(b, toks, got) ==
    LET ws == [i \in 1..Len(toks) |-> toks[i].w]
        found == Find(b, ws, 1)
    IN IF found = <<>> THEN got = <<>>
       ELSE IF found[1].l - found[1].f + 1 < Len(ws) THEN TRUE      \* nothing is said about a part of the text
       ELSE Len(got) = 1 /\ got[1].r \in found[1].rs
=============================================================================
