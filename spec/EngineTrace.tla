----------------------------- MODULE EngineTrace -----------------------------
(* Validation of what the real engine answered.  Each event holds the arguments of a call, what the
   parts of the engine answered for the same text (each intent parser loaded alone, the entity
   parsers) and the result of the engine; events are independent of each other. *)
EXTENDS Engine, SlotResolution, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Tol == 3                              \* scores are in millionths
SameScore(a, b) == Near(a, b, Tol)
EmptyNames == {}

---------------------------------------------------------------------------
SlotsSound(ev, intent, slots, prefix) ==
    Clause(\A j \in 1..Len(slots) : InText(ev.text, slots[j]), "C06", prefix \o "-slot-not-in-text")
    \cup Clause(Disjoint(slots), "C07", prefix \o "-slots-overlap")
    \cup Clause(InOrder(slots), "C07", prefix \o "-slots-out-of-order")
    \cup Clause(\A j \in 1..Len(slots) : Declared(ev.mapping, intent, slots[j]), "C07", prefix \o "-slot-not-declared")
    \cup Clause(\A j \in 1..Len(slots) : Len(slots[j].alts) <= ev.sa, "C08", prefix \o "-too-many-values")

ResolvedAs(slots, expected) ==        \* got, wanted
    Clause(slots = expected, "C08", "slots-resolution")

ParseBad(ev) ==
    LET known == RangeS(ev.known)
        unknown == Unknowns(known, ev.wl, ev.bl)
        allowed == Allowed(known, ev.wl, ev.bl)
        res == ev.res
        first == FirstFound(ev.answers)
        wanted == IF first = 0 THEN <<>> ELSE ResolveAll(ev.answers[first].slots)
        cand == Candidates(ev.listing.l, allowed, res.intent)
        altNames == { res.alts[j].i : j \in 1..Len(res.alts) }
    IN
    IF res.r \notin {"ok", "err"} THEN { <<"C31", "parse-" \o res.r>> }
    ELSE IF unknown # {} THEN
        Clause(res.r = "err", "C02", "unknown-intent-accepted")
        \cup (IF res.r = "err" THEN Clause(RangeS(res.names) \cap unknown # {}, "C02", "unknown-intent-not-named")
                    \cup Clause(RangeS(res.names) \cap unknown # {}, "C33", "unknown-intent-not-named") ELSE {})
    ELSE IF CascadeFails(ev.answers) THEN
        Clause(res.r = "err", "C33", "parser-error-hidden")
        \cup Clause(res.r # "err" \/ RangeS(ev.culprits) \subseteq RangeS(res.names), "C33", "culprit-not-named")
    ELSE IF res.r = "err" THEN
        IF ev.wl.g \/ ev.bl.g THEN Clause(ev.mayfail, "C02", "known-filter-refused") \cup Clause(ev.mayfail, "C03", "parse-failed")
        ELSE Clause(ev.mayfail, "C03", "parse-failed")
    ELSE
        Clause(res.input = ev.text, "C06", "input-not-echoed")
        \cup Clause(res.intent \in allowed \cup {None}, "C01", "result-not-allowed")
        \cup Clause(altNames \subseteq allowed \cup {None}, "C01", "alternative-not-allowed")
        \cup Clause(\A k \in 1..Len(ev.answers) : ev.answers[k].r = "ok" => ev.answers[k].intent \in allowed \cup {None},
                    "C01", "parser-answer-not-allowed")
        \cup Clause(res.intent = CascadeIntent(ev.answers), "C03", "not-the-first-parser")
        \cup Clause(SameScore(res.score, CascadeScore(ev.answers)), "C03", "score")
        \cup Clause(res.intent = None => Len(res.slots) = 0, "C03", "slots-without-intent")
        \cup Clause(Positions(res.slots) = Positions(wanted), "C03", "slots-of-another-parser")
        \cup (IF Positions(res.slots) = Positions(wanted) \/ Len(res.slots) # Len(wanted)
              THEN ResolvedAs(res.slots, wanted) ELSE {})
        \cup (IF res.intent = None THEN {} ELSE SlotsSound(ev, res.intent, res.slots, "result"))
        \cup UNION { IF res.alts[j].i = None
                     THEN Clause(Len(res.alts[j].slots) = 0, "C04", "slots-without-intent")
                     ELSE SlotsSound(ev, res.alts[j].i, res.alts[j].slots, "alternative") : j \in 1..Len(res.alts) }
        \cup (IF ev.ia = 0 THEN Clause(Len(res.alts) = 0, "C04", "alternatives-not-asked")
              ELSE IF ev.listing.r # "ok" THEN Clause(FALSE, "C04", "alternatives-without-listing")
              ELSE Clause(Len(res.alts) = MinOf({ev.ia, Len(cand)}), "C04", "number-of-alternatives")
              \cup Clause(res.intent \notin altNames /\ Cardinality(altNames) = Len(res.alts), "C04", "repeated-alternative")
              \cup Clause(Sorted([j \in 1..Len(res.alts) |-> [i |-> res.alts[j].i, s |-> res.alts[j].s]]),
                          "C04", "alternatives-order")
              \cup Clause(\A j \in 1..Len(res.alts) : \E c \in RangeS(cand) :
                            c.i = res.alts[j].i /\ SameScore(c.s, res.alts[j].s), "C04", "alternative-score")
              \cup Clause(\A c \in RangeS(cand) : c.i \notin altNames =>
                            \A j \in 1..Len(res.alts) : c.s <= res.alts[j].s + Tol, "C04", "better-alternative-left-out")
              \cup Clause(\A j \in 1..Len(res.alts) : res.alts[j].i # None =>
                            /\ Has(ev.slotsOf, res.alts[j].i)
                            /\ ev.slotsOf[res.alts[j].i].r = "ok"
                            /\ res.alts[j].slots = ev.slotsOf[res.alts[j].i].l, "C04", "alternative-slots"))

ListBad(ev) ==
    LET known == RangeS(ev.known)
        res == ev.res
        fails == \E k \in 1..Len(ev.lists) : ev.lists[k].r # "ok"
        lists == [k \in 1..Len(ev.lists) |-> ev.lists[k].l]
    IN
    IF res.r \notin {"ok", "err"} THEN { <<"C31", "get_intents-" \o res.r>> }
    ELSE IF fails THEN Clause(res.r = "err", "C33", "parser-error-hidden")
    ELSE Clause(res.r = "ok", "C05", "listing-failed") \cup
    IF res.r # "ok" THEN {} ELSE
        Clause(Names(res.l) = UNION { RangeS(ev.lists[k].want) : k \in 1..Len(lists) }, "C05", "listing-not-complete")
        \cup Clause(NamedOnce(res.l), "C05", "intent-listed-twice")
        \cup Clause(Sorted(res.l), "C05", "listing-not-sorted")
        \cup Clause(\A x \in RangeS(res.l) : SameScore(x.s, BestScore(lists, x.i)), "C05", "not-the-best-score")
        \cup Clause(\A k \in 1..Len(lists) : Names(lists[k]) = RangeS(ev.lists[k].want) /\ NamedOnce(lists[k]), "C05",
                    "parser-listing-not-complete")
        \cup Clause(\A k \in 1..Len(lists) : Sorted(lists[k]), "C05", "parser-listing-not-sorted")

SlotsBad(ev) ==
    LET res == ev.res
        asked == FirstWithSlots(ev.answers)
        fails == SlotListFails(ev.answers)
        wanted == IF asked = 0 THEN <<>> ELSE ResolveAll(ev.answers[asked].slots)
    IN
    IF res.r \notin {"ok", "err"} THEN { <<"C31", "get_slots-" \o res.r>> }
    ELSE IF fails THEN
        Clause(res.r = "err", "C33", "parser-error-hidden")
        \cup Clause(res.r # "err" \/ ev.intent \in RangeS(ev.known) \/ ev.intent \in RangeS(res.names), "C33", "unknown-intent-not-named")
    ELSE IF res.r # "ok" THEN Clause(FALSE, "C08", "get_slots-failed") \cup Clause(FALSE, "C03", "get_slots-failed")
    ELSE Clause(Positions(res.slots) = Positions(wanted), "C03", "slots-not-of-the-first-parser-with-slots")
         \cup Clause(Positions(res.slots) = Positions(wanted), "C08", "slots-positions")
         \cup ResolvedAs(res.slots, wanted)
         \cup SlotsSound(ev, ev.intent, res.slots, "get_slots")

ExtractBad(ev) ==
    LET res == ev.res
        knownIntent == Has(ev.mapping, ev.intent)
        knownSlot == knownIntent /\ Has(ev.mapping[ev.intent], ev.slot)
        entity == ev.mapping[ev.intent][ev.slot]
        ext == Has(ev.ext, entity) /\ ev.ext[entity]
    IN
    IF res.r \notin {"ok", "err"} THEN { <<"C31", "extract_slot-" \o res.r>> }
    ELSE IF ~knownSlot THEN
        Clause(res.r = "err", "C09", "unknown-name-accepted")
        \cup (IF res.r # "err" THEN {} ELSE
              Clause((IF knownIntent THEN ev.slot ELSE ev.intent) \in RangeS(res.names), "C09", "unknown-name-not-named")
              \cup Clause((IF knownIntent THEN ev.slot ELSE ev.intent) \in RangeS(res.names), "C33", "unknown-name-not-named"))
    ELSE IF ~ev.found.ok THEN Clause(res.r = "err", "C33", "entity-parser-error-hidden")
    ELSE IF res.r = "err" THEN Clause(FALSE, "C09", "extraction-failed")
    ELSE IF Len(ev.found.l) > 0 THEN
        Clause(Len(res.slots) = 1, "C09", "entity-found-but-no-slot")
        \cup (IF Len(res.slots) # 1 THEN {} ELSE
           LET x == res.slots[1] IN
           Clause(InText(ev.text, x), "C06", "extracted-slot-not-in-text")
           \cup Clause(\E m \in RangeS(ev.found.l) : x.s = m.s /\ x.e = m.e /\ x.val = m.val /\ x.alts = m.alts,
                  "C09", "not-an-entity-found")
           \cup Clause(x.entity = entity /\ x.slot = ev.slot, "C09", "slot-or-entity")
           \cup Clause(Len(x.alts) <= ev.sa, "C09", "too-many-values"))
    ELSE IF ext THEN
        Clause(Len(res.slots) = 1, "C09", "extensible-but-no-slot")
        \cup (IF Len(res.slots) # 1 THEN {} ELSE
           LET x == res.slots[1] IN
           Clause(x.s = 0 /\ x.e = Len(ev.text) /\ x.val = ev.textval /\ x.alts = <<>>, "C09", "not-the-whole-text")
           \cup Clause(x.raw = ev.text, "C06", "extracted-slot-not-in-text")
           \cup Clause(x.entity = entity /\ x.slot = ev.slot, "C09", "slot-or-entity"))
    ELSE Clause(Len(res.slots) = 0, "C09", "slot-without-entity")

(* The values of a custom entity in a text: leftmost longest runs of its words. *)
WordsAt(tokens, k, words) ==
    /\ k + Len(words) - 1 <= Len(tokens)
    /\ \A j \in 1..Len(words) : tokens[k + j - 1].low = words[j]
LongestAt(ev, k) ==
    LET fits == { Len(v.words) : v \in { x \in RangeS(ev.values) : WordsAt(ev.tokens, k, x.words) } }
    IN IF fits = {} THEN 0 ELSE MaxOf(fits)
RECURSIVE EntitiesFrom(_, _)
EntitiesFrom(ev, k) ==
    IF k > Len(ev.tokens) THEN <<>>
    ELSE LET n == LongestAt(ev, k)
             all == SelectSeq(ev.values, LAMBDA v : Len(v.words) = n /\ WordsAt(ev.tokens, k, v.words))
             names == SelectSeq(all, LAMBDA v : TRUE)
         IN IF n = 0 THEN EntitiesFrom(ev, k + 1)
            ELSE << [s |-> ev.tokens[k].s, e |-> ev.tokens[k + n - 1].e, names |-> { v.res : v \in RangeS(names) },
                     res |-> names[1].res] >> \o EntitiesFrom(ev, k + n)
EntitiesBad(ev) ==
    LET want == EntitiesFrom(ev, 1)
        got == ev.res.l
    IN
    IF ev.res.r # "ok" THEN { <<"C31", "entities-" \o ev.res.r>> }
    ELSE Clause(Len(got) = Len(want) /\ \A j \in 1..Len(got) : got[j].s = want[j].s /\ got[j].e = want[j].e,
                "C06", "entity-positions")
         \cup (IF Len(got) # Len(want) THEN {} ELSE
               Clause(\A j \in 1..Len(got) : got[j].res = want[j].res /\ RangeS(got[j].alts) = want[j].names \ {want[j].res},
                      "C08", "entity-values"))

Bad(ev) ==
    CASE ev.op = "custom" -> EntitiesBad(ev)
      [] ev.op = "parse" -> ParseBad(ev)
      [] ev.op = "get_intents" -> ListBad(ev)
      [] ev.op = "get_slots" -> SlotsBad(ev)
      [] ev.op = "extract_slot" -> ExtractBad(ev)

---------------------------------------------------------------------------
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == /\ ~done
             /\ Report(l, Bad(Trace[l]))
             /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
