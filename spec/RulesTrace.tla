----------------------------- MODULE RulesTrace -----------------------------
(* Trace checking of the rule-based parsers. An event holds the text, its tokens, what the entity parsers
   found for each intent, the model (patterns or table) and what the parser answered. *)
EXTENDS Rules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

IsDet(ev) == ev.kind = "det"
\* known: the intents the parser has entities for; wl: [g: is there a whitelist, l: its intents]
Allowed(ev) == IF ev.wl.g THEN RangeS(ev.known) \cap RangeS(ev.wl.l) ELSE RangeS(ev.known)
Main(ev) == IF IsDet(ev) THEN "C13" ELSE "C14"
\* the possible lists of slots of an intent: none when it is not found
Found(ev, i) ==
    LET f == ev.found[i]
        kept == Kept(f.ents)
        stops == StopsOf(ev, i)
    IN IF IsDet(ev) THEN
           LET m == FirstMatch(ev.patterns[i], Cleaned(ev.low, ev.tokens, stops), Cleaned(f.low, f.tokens, stops), kept)
           IN IF m.ok THEN { [k \in 1..Len(m.groups) |-> [slot |-> m.groups[k].slot, s |-> m.groups[k].s, e |-> m.groups[k].e,
                                                          entity |-> ev.mapping[i][m.groups[k].slot]]] }
              ELSE {}
       ELSE LET all == Lookups(ev.table, i, ev.tokens, kept, stops)
            IN { x \in all : \A y \in all : Len(x) <= Len(y) }
Consistent(ev) == IsDet(ev) => \A i \in Allowed(ev) : ev.found[i].low = Formatted(ev.low, Kept(ev.found[i].ents), 0)
AnyOf(S) == CHOOSE x \in S : TRUE

\* got: list of [slot, s, e, entity, raw]; want: a list of [slot, s, e, entity]; the order is that of the text
InOrder(want) == SortSeq(want, LAMBDA a, b : a.s < b.s)
SameSlots(got, want) ==
    LET w == InOrder(want) IN
    /\ Len(got) = Len(w)
    /\ \A k \in 1..Len(got) : got[k].slot = w[k].slot /\ got[k].s = w[k].s /\ got[k].e = w[k].e /\ got[k].entity = w[k].entity

ParseBad(ev) ==
    LET I == Allowed(ev)
        found == [i \in I |-> Found(ev, i)]
        hits == { i \in I : found[i] # {} }
        weight == [i \in hits |-> Weight(Len(AnyOf(found[i])))]
        total == FoldSet(LAMBDA i, acc : acc + weight[i], 0, hits)
        sure == { i \in hits : 2 * weight[i] > total }
        tied == { i \in hits : 2 * weight[i] = total /\ Cardinality(hits) > 2 }     \* rounding decides
        stopped == \E k \in 1..Len(ev.tokens) : ev.tokens[k].n \in RangeS(ev.stops)
        props == {Main(ev)} \cup (IF stopped THEN {"C15"} ELSE {})
        All(cond, what) == IF cond THEN {} ELSE { <<p, what>> : p \in props }
    IN IF ev.res.r \notin {"ok", "err"} THEN { <<"C31", "rule-parser-" \o ev.res.r>>, <<Main(ev), "parse-" \o ev.res.r>> }
       ELSE IF ~Consistent(ev) THEN { <<"TOOL", "formatted text">> }
       ELSE IF ev.res.r = "err" THEN { <<Main(ev), "parse-failed">> }
       ELSE IF ev.res.intent = None THEN
            All(sure = {}, "intent-missed") \cup All(ev.res.slots = <<>>, "slots-without-intent")
            \cup All(Near(ev.res.score, 1000000, 3), "score-of-none")
            \cup (IF ev.design.g THEN All(ev.design.intent = None, "differs-from-the-design") ELSE {})
       ELSE IF ev.res.intent \notin hits THEN All(FALSE, "intent-not-matched")
       ELSE All(ev.res.intent \in sure \cup tied, "intent-ambiguous")
            \cup All(Near(ev.res.score, (weight[ev.res.intent] * 1000000) \div total, 3), "score")
            \cup All(\E w \in found[ev.res.intent] : SameSlots(ev.res.slots, w), "slots")
            \cup (IF ev.design.g THEN All(ev.res.intent = ev.design.intent, "differs-from-the-design") ELSE {})
            \cup Clause(\A k \in 1..Len(ev.res.slots) : /\ ev.res.slots[k].s <= ev.res.slots[k].e /\ ev.res.slots[k].e <= Len(ev.text)
                                                       /\ ev.res.slots[k].raw = Sub(ev.text, ev.res.slots[k].s, ev.res.slots[k].e),
                        "C06", "rule-slot-raw-value")

\* the listing of the intents by the parser itself
IntentsBad(ev) ==
    LET I == Allowed(ev)
        found == [i \in I |-> Found(ev, i)]
        hits == { i \in I : found[i] # {} }
        weight == [i \in hits |-> Weight(Len(AnyOf(found[i])))]
        total == FoldSet(LAMBDA i, acc : acc + weight[i], 0, hits)
        want(i) == IF i \in hits THEN (weight[i] * 1000000) \div total ELSE 0
        l == ev.res.l
    IN IF ev.res.r \notin {"ok", "err"} THEN { <<"C31", "rule-parser-" \o ev.res.r>>, <<Main(ev), "intents-" \o ev.res.r>> }
       ELSE IF ~Consistent(ev) THEN { <<"TOOL", "formatted text">> }
       ELSE IF ev.res.r = "err" THEN { <<Main(ev), "intents-failed">> }
       ELSE Clause(IsPerm([k \in 1..Len(l) |-> l[k].i], SetToSeq(RangeS(ev.listed) \cup {None})), Main(ev), "intents-listed")
            \cup Clause(\A k \in 1..Len(l) : l[k].i \in I => Near(l[k].s, want(l[k].i), 3), Main(ev), "intent-score")
            \cup Clause(\A k \in 1..Len(l) : l[k].i \notin I => l[k].s = 0, Main(ev), "score-of-no-match")
            \cup Clause(\A j, k \in 1..Len(l) : j < k => l[j].s >= l[k].s, "C05", "rule-parser-listing-order")

\* a text and the same with a stop word more: [a, b: answers, kept: is the word kept by the intent]
StopBad(ev) ==
    IF ev.a.r # "ok" \/ ev.b.r # "ok" THEN Clause(ev.a.r = ev.b.r, "C15", "stop-word-makes-fail")
    ELSE Clause(ev.a.intent = ev.b.intent, "C15", "stop-word-changes-intent")
         \cup Clause(Len(ev.a.slots) = Len(ev.b.slots)
                     /\ \A k \in 1..Len(ev.a.slots) : ev.a.slots[k].slot = ev.b.slots[k].slot /\ ev.a.slots[k].raw = ev.b.slots[k].raw,
                     "C15", "stop-word-changes-slots")

\* the slots of one intent: those of the answer when only this intent is allowed
SlotsBad(ev) ==
    IF ev.res.r \notin {"ok", "err"} THEN { <<"C31", "rule-parser-" \o ev.res.r>>, <<Main(ev), "slots-" \o ev.res.r>> }
    ELSE IF ev.intent \notin RangeS(ev.listed)
         THEN Clause(ev.res.r = "err" /\ ev.res.named, "C02", "rule-parser-unknown-intent")
    ELSE IF ~Consistent(ev) THEN { <<"TOOL", "formatted text">> }
    ELSE IF ev.res.r = "err" THEN { <<Main(ev), "slots-failed">> }
    ELSE LET f == Found(ev, ev.intent)
         IN Clause(IF f = {} THEN ev.res.slots = <<>> ELSE \E w \in f : SameSlots(ev.res.slots, w), Main(ev), "slots-of-intent")

\* the same text after k blanks
PadBad(ev) ==
    Clause(ev.a.r = ev.b.r, "C31", "rule-parser-long-text-" \o ev.b.r)
    \cup (IF ev.a.r # "ok" \/ ev.b.r # "ok" THEN Clause(ev.a.r = ev.b.r, Main(ev), "blanks-make-fail")
          ELSE Clause(ev.a.intent = ev.b.intent /\ Len(ev.a.slots) = Len(ev.b.slots), Main(ev), "blanks-change-intent")
               \cup (IF Len(ev.a.slots) # Len(ev.b.slots) THEN {} ELSE
                     Clause(\A i \in 1..Len(ev.a.slots) : /\ ev.b.slots[i].s = ev.a.slots[i].s + ev.k
                                                           /\ ev.b.slots[i].e = ev.a.slots[i].e + ev.k
                                                           /\ ev.b.slots[i].raw = ev.a.slots[i].raw
                                                           /\ ev.b.slots[i].slot = ev.a.slots[i].slot, Main(ev), "blanks-change-slots")))

Bad(ev) == CASE ev.op = "slots" -> SlotsBad(ev) [] ev.op = "pad" -> PadBad(ev) [] ev.op = "parse" -> ParseBad(ev) [] ev.op = "intents" -> IntentsBad(ev) [] ev.op = "stop" -> StopBad(ev)
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
