------------------------------- MODULE Engine -------------------------------
(* The engine: intents filters, cascade of intent parsers, alternatives, intents listing.

   Definitions used both by the state machine (EngineDesign) and by the validation of what the real
   engine answered (EngineTrace).  *)
EXTENDS Common

---------------------------------------------------------------------------
(* Filters.  A filter is a record [g |-> given?, l |-> sequence of names]. *)
Unknowns(known, wl, bl) ==
    ((IF wl.g THEN RangeS(wl.l) ELSE {}) \cup (IF bl.g THEN RangeS(bl.l) ELSE {})) \ known

Allowed(known, wl, bl) ==
    { i \in known : /\ wl.g => i \in RangeS(wl.l)
                    /\ bl.g => i \notin RangeS(bl.l) }

(* Cascade.  answers: sequence of [r, intent, score, ...], one per parser. *)
FirstFound(answers) ==
    LET found == { k \in 1..Len(answers) : answers[k].r = "ok" /\ answers[k].intent # None }
    IN IF found = {} THEN 0 ELSE MinOf(found)
Consulted(answers) ==                 \* the parsers that are asked
    IF FirstFound(answers) = 0 THEN 1..Len(answers) ELSE 1..FirstFound(answers)
CascadeFails(answers) == \E k \in Consulted(answers) : answers[k].r # "ok"
CascadeScore(answers) ==
    IF FirstFound(answers) # 0 THEN answers[FirstFound(answers)].score
    ELSE IF Len(answers) = 0 THEN 0 ELSE answers[Len(answers)].score
CascadeIntent(answers) ==
    IF FirstFound(answers) # 0 THEN answers[FirstFound(answers)].intent ELSE None

(* Slots listing.  answers: one [r, slots] per parser; the first that locates slots is the one that counts,
   whatever becomes of these slots when they are resolved. *)
FirstWithSlots(answers) ==
    LET some == { k \in 1..Len(answers) : answers[k].r = "ok" /\ Len(answers[k].slots) > 0 }
    IN IF some = {} THEN 0 ELSE MinOf(some)
SlotListFails(answers) ==
    \E k \in 1..Len(answers) : answers[k].r # "ok" /\ (FirstWithSlots(answers) = 0 \/ k < FirstWithSlots(answers))

(* Intents listing. lists: one sequence of [i, s] per parser. *)
ScoreIn(list, i) ==
    LET at == { k \in 1..Len(list) : list[k].i = i }
    IN IF at = {} THEN -1 ELSE MaxOf({ list[k].s : k \in at })
BestScore(lists, i) ==
    IF Len(lists) = 0 THEN -1 ELSE MaxOf({ ScoreIn(lists[k], i) : k \in 1..Len(lists) })
Sorted(list) == \A k \in 1..(Len(list) - 1) : list[k].s >= list[k + 1].s
Names(list) == { list[k].i : k \in 1..Len(list) }
NamedOnce(list) == Cardinality(Names(list)) = Len(list)

(* Alternatives: cand is the listing restricted to what is allowed, without the intent returned. *)
Candidates(listing, allowed, returned) ==
    SelectSeq(listing, LAMBDA x : (x.i = None \/ x.i \in allowed) /\ x.i # returned)
=============================================================================
