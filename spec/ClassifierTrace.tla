--------------------------- MODULE ClassifierTrace ---------------------------
(* Trace checking of the features and the scores of the intent classifier. *)
EXTENDS Featurizer, Json, IOUtils
C == INSTANCE Classifier
Trace == ndJsonDeserialize(IOEnv.TRACE)
FTol == 10
VecBad(ev) ==
    IF ev.r # "ok" THEN { <<"C25", "features-" \o ev.r>> }
    ELSE LET n == Size(ev.vocab)
             m == IF ev.cooc THEN Len(ev.pairs) ELSE 0
         IN IF Len(ev.got) # n + m THEN { <<"C25", "length-of-features">> }
            ELSE LET want == Unit(Weights(ev))
                 IN Clause(\A i \in 1..n : Near(ev.got[i], want[i], FTol), "C25", "term-weights")
                    \cup (IF ~ev.cooc THEN {} ELSE
                          LET ind == Indicators(ev) IN Clause(\A i \in 1..m : ev.got[n + i] = ind[i], "C25", "word-pairs"))
ScoreBad(ev) ==
    IF ev.r # "ok" THEN { <<"C24", "classifying-" \o ev.r>> }
    ELSE LET want == C!Expected(ev.model, ev.text, ev.feats)
         IN Clause(C!Listed(C!Classes(ev.model), want, ev.listing), "C24", "intent-scores")
            \cup Clause(C!Sorted(ev.listing), "C24", "order-of-intents")
            \cup Clause(\A i \in 1..Len(ev.asked) : C!Best(ev.listing, RangeS(ev.asked[i].allowed), ev.asked[i].all, ev.asked[i].got),
                        "C24", "best-intent")
Bad(ev) == CASE ev.op = "vec" -> VecBad(ev) [] ev.op = "score" -> ScoreBad(ev)
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
