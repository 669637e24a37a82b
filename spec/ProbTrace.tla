------------------------------ MODULE ProbTrace ------------------------------
(* Answers of probabilistic parsers next to those of their classifier and slot fillers, loaded alone. *)
EXTENDS Prob, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

Part(ev, who) == IF who = "classifier" THEN ev.clf ELSE ev.fillers[who]
Said(part, res) == part.says = "" \/ part.says \in RangeS(res.chain)
FailureBad(ev, want, asked) ==
    Clause(ev.res.r = "err", "C34", "failure-of-a-part-lost")
    \cup (IF ev.res.r # "err" THEN {}
          ELSE IF want.who = "unknown" THEN Clause(asked \in RangeS(ev.res.names), "C34", "intent-without-filler-not-named")
          ELSE Clause(Said(Part(ev, want.who), ev.res), "C34", "error-of-another-part"))

(* parse: [op, clf: [r, n, s, says], fillers: intent -> [r, slots, says], res: [r, n, s, slots, names, chain]] *)
ParseBad(ev) ==
    LET want == Parse(ev.clf, ev.fillers) IN
    IF ev.res.r \notin {"ok", "err"} THEN { <<"C34", "parse-" \o ev.res.r>> }
    ELSE IF want.r = "err" THEN FailureBad(ev, want, ev.clf.n)
    ELSE IF ev.res.r = "err" THEN { <<"C34", "parse-fails">> }
    ELSE Clause(ev.res.n = want.n, "C34", "intent-of-the-classifier")
         \cup Clause(ev.res.s = want.s, "C34", "score-of-the-classifier")
         \cup Clause(ev.res.slots = want.slots, "C34", "slots-of-the-filler")
SlotsBad(ev) ==
    LET want == SlotsFor(ev.intent, ev.fillers) IN
    IF ev.res.r \notin {"ok", "err"} THEN { <<"C34", "slots-" \o ev.res.r>> }
    ELSE IF want.r = "err" THEN FailureBad(ev, want, ev.intent)
    ELSE IF ev.res.r = "err" THEN { <<"C34", "slots-fail">> }
    ELSE Clause(ev.res.slots = want.slots, "C34", "slots-of-the-filler")
ListingBad(ev) ==
    IF ev.res.r \notin {"ok", "err"} THEN { <<"C34", "listing-" \o ev.res.r>> }
    ELSE IF ev.clf.r # "ok" THEN Clause(ev.res.r = "err", "C34", "failure-of-a-part-lost")
                                 \cup Clause(ev.res.r = "ok" \/ Said(ev.clf, ev.res), "C34", "error-of-another-part")
    ELSE Clause(ev.res.r = "ok" /\ ev.res.l = ev.clf.l, "C34", "listing-of-the-classifier")

Bad(ev) == CASE ev.op = "parse" -> ParseBad(ev) [] ev.op = "slots" -> SlotsBad(ev) [] ev.op = "listing" -> ListingBad(ev)

VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
