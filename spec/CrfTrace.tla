------------------------------ MODULE CrfTrace ------------------------------
EXTENDS Crf, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

(* slots: [op, scheme, tags, tokens: [s, e], text, mapping, model: has a tagger?, res: [r, names, slots]] *)
SlotsBad(ev) ==
    LET want == IF ev.model THEN Slots(ev.scheme, ev.tags) ELSE <<>>
        missing == { want[k].n : k \in 1..Len(want) } \ DOMAIN ev.mapping
        got == ev.res.slots
    IN
    IF ev.res.r \notin {"ok", "err"} THEN { <<"C10", "get_slots-" \o ev.res.r>>, <<"C31", "get_slots-" \o ev.res.r>> }
    ELSE IF missing # {} THEN
        Clause(ev.res.r = "err", "C10", "slot-without-entity-accepted")
        \cup Clause(ev.res.r # "err" \/ RangeS(ev.res.names) \cap missing # {}, "C33", "slot-without-entity-not-named")
    ELSE IF ev.res.r # "ok" THEN { <<"C10", "get_slots-failed">> }
    ELSE Clause(Len(got) = Len(want), "C10", "number-of-slots")
         \cup (IF Len(got) # Len(want) THEN {} ELSE
            Clause(\A k \in 1..Len(got) : /\ got[k].s = ev.tokens[want[k].a].s
                                          /\ got[k].e = ev.tokens[want[k].b].e, "C10", "slot-range")
            \cup Clause(\A k \in 1..Len(got) : got[k].name = want[k].n, "C10", "slot-name")
            \cup Clause(\A k \in 1..Len(got) : got[k].name \in DOMAIN ev.mapping => got[k].entity = ev.mapping[got[k].name],
                        "C10", "slot-entity")
            \cup Clause(\A k \in 1..Len(got) : got[k].raw = Sub(ev.text, got[k].s, got[k].e), "C10", "slot-raw-value")
            \cup Clause(\A k \in 1..Len(got) : got[k].raw = Sub(ev.text, got[k].s, got[k].e), "C06", "tagged-slot-raw-value")
            \cup Clause(\A j, k \in 1..Len(got) : j < k => got[j].e <= got[k].s, "C07", "tagged-slots-order"))

(* prob: [op, model, labels, tags, state, trans, p (per 10^7), again (for the replaced tags)] *)
ProbBad(ev) ==
    IF ev.r \notin {"ok", "err"} THEN { <<"C29", "probability-" \o ev.r>> }
    ELSE IF ev.r = "err" THEN { <<"C29", "probability-failed">> }
    ELSE IF ~ev.model THEN
        Clause(ev.p = IF \A k \in 1..Len(ev.tags) : ev.tags[k] = "O" THEN 10000000 ELSE 0, "C29", "without-tagger")
    ELSE
        LET path == Replaced(ev.labels, ev.tags)
            w == Weight(ev.state, ev.trans, path)
            z == Total(ev.state, ev.trans, RangeS(ev.labels), Len(ev.tags))
            want == (w * 100000) \div z           \* integers of TLC have 32 bits
        IN Clause(Near(ev.p \div 100, want, 2), "C29", "probability")

Bad(ev) == CASE ev.op = "slots" -> SlotsBad(ev) [] ev.op = "prob" -> ProbBad(ev)

VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
