--------------------------- MODULE SlotResolution ---------------------------
(* How a slot that an intent parser located becomes a slot with a value.
   slot: [s, e, raw, rawval, entity, slot, custom, ext, whole, alone]
     whole: the entities of this kind that the entity parsers find in the whole text
     alone: those they find in the raw value alone
   match: [s, e, len, val, alts] *)
EXTENDS Common

Dropped == [dropped |-> TRUE, val |-> "", alts |-> <<>>]
Resolved(v, a) == [dropped |-> FALSE, val |-> v, alts |-> a]

ExactMatches(slot) == SelectSeq(slot.whole, LAMBDA m : m.s = slot.s /\ m.e = slot.e)
AloneMatch(slot) ==                   \* a sequence of at most one
    IF Len(slot.alone) = 0 THEN <<>>
    ELSE LET m == slot.alone[Len(slot.alone)]
         IN IF slot.custom /\ m.len # slot.e - slot.s THEN <<>> ELSE <<m>>

Resolution(slot) ==
    IF Len(ExactMatches(slot)) > 0
    THEN Resolved(ExactMatches(slot)[1].val, ExactMatches(slot)[1].alts)
    ELSE IF Len(AloneMatch(slot)) > 0
    THEN Resolved(AloneMatch(slot)[1].val, AloneMatch(slot)[1].alts)
    ELSE IF slot.custom /\ slot.ext THEN Resolved(slot.rawval, <<>>)
    ELSE Dropped

RECURSIVE ResolveAll(_)
ResolveAll(slots) ==
    IF slots = <<>> THEN <<>>
    ELSE LET r == Resolution(Head(slots))
             h == Head(slots)
         IN (IF r.dropped THEN <<>>
             ELSE << [s |-> h.s, e |-> h.e, raw |-> h.raw, entity |-> h.entity, slot |-> h.slot,
                      val |-> r.val, alts |-> r.alts] >>) \o ResolveAll(Tail(slots))
Positions(rs) == [ j \in 1..Len(rs) |-> <<rs[j].s, rs[j].e, rs[j].entity, rs[j].slot, rs[j].raw>> ]

(* Well-formed slots: in the text, disjoint, declared *)
InText(text, rs) == rs.s >= 0 /\ rs.s < rs.e /\ rs.e <= Len(text) /\ Sub(text, rs.s, rs.e) = rs.raw
Disjoint(list) == \A i, j \in 1..Len(list) : i # j => ~Overlap(list[i], list[j])
InOrder(list) == \A i \in 1..(Len(list) - 1) : list[i].s <= list[i + 1].s
Declared(mapping, intent, rs) ==
    /\ Has(mapping, intent) /\ Has(mapping[intent], rs.slot) /\ mapping[intent][rs.slot] = rs.entity
=============================================================================
