---------------------------- MODULE ResolveDesign ----------------------------
(* How the slots located in a text get their values, step by step: the entities of the whole text
   first, then those of the slot alone, then the words themselves when the entity is open.
   Texts are sequences of words; the entity parsers know the phrases of dict and find the leftmost
   longest ones.  ranges: the slots, as intervals of words. *)
EXTENDS SlotResolution, Json, CSV, IOUtils

CONSTANTS Words, MaxText, MaxDict, Careless
VARIABLES pc, text, dict, kind, ranges, k, got
vars == <<pc, text, dict, kind, ranges, k, got>>

Phrases == { <<w>> : w \in Words } \cup { <<v, w>> : v \in Words, w \in Words }
Texts == UNION { [1..n -> Words] : n \in 1..MaxText }
Dicts == { D \in SUBSET Phrases : Cardinality(D) <= MaxDict }
Intervals(n) == { r \in (0..(n - 1)) \X (1..n) : r[1] < r[2] }
Ranges(n) == { <<r>> : r \in Intervals(n) } \cup
             { q \in Intervals(n) \X Intervals(n) : q[1][2] <= q[2][1] }

LongestAt(t, i) ==
    LET fits == { Len(p) : p \in { d \in dict : i + Len(d) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(d) - 1) = d } }
    IN IF fits = {} THEN 0 ELSE MaxOf(fits)
RECURSIVE FoundFrom(_, _)
FoundFrom(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE LET n == LongestAt(t, i)
         IN IF n = 0 THEN FoundFrom(t, i + 1)
            ELSE << [s |-> i - 1, e |-> i - 1 + n, len |-> n, val |-> SubSeq(t, i, i + n - 1), alts |-> <<>>] >>
                 \o FoundFrom(t, i + n)
Slot(r) == LET raw == Sub(text, r[1], r[2]) IN
    [s |-> r[1], e |-> r[2], raw |-> raw, rawval |-> <<"the words">> \o raw, entity |-> "e", slot |-> "s",
     custom |-> kind # "builtin", ext |-> kind = "open", whole |-> FoundFrom(text, 1), alone |-> FoundFrom(raw, 1)]
Now == Slot(ranges[k])

Init ==
    /\ text \in Texts /\ dict \in Dicts /\ kind \in {"builtin", "closed", "open"}
    /\ ranges \in Ranges(Len(text))
    /\ pc = "whole" /\ k = 1 /\ got = <<>>

Give(v) == got' = Append(got, [slot |-> k, val |-> v])
Next1 == IF k = Len(ranges) THEN pc' = "done" /\ k' = k ELSE pc' = "whole" /\ k' = k + 1

InWhole ==
    /\ pc = "whole" /\ Len(ExactMatches(Now)) > 0
    /\ Give(ExactMatches(Now)[1].val) /\ Next1 /\ UNCHANGED <<text, dict, kind, ranges>>
NotInWhole ==
    /\ pc = "whole" /\ Len(ExactMatches(Now)) = 0
    /\ pc' = "alone" /\ UNCHANGED <<text, dict, kind, ranges, k, got>>
LastAlone == LET l == Now.alone IN
    IF Len(l) = 0 THEN <<>>
    ELSE IF Now.custom /\ ~Careless /\ l[Len(l)].len # Now.e - Now.s THEN <<>>
    ELSE << l[Len(l)] >>
Alone ==
    /\ pc = "alone" /\ Len(LastAlone) > 0
    /\ Give(LastAlone[1].val) /\ Next1 /\ UNCHANGED <<text, dict, kind, ranges>>
NotAlone ==
    /\ pc = "alone" /\ Len(LastAlone) = 0
    /\ pc' = "words" /\ UNCHANGED <<text, dict, kind, ranges, k, got>>
TheWords ==
    /\ pc = "words" /\ kind = "open"
    /\ Give(Now.rawval) /\ Next1 /\ UNCHANGED <<text, dict, kind, ranges>>
Drop ==
    /\ pc = "words" /\ kind # "open"
    /\ Next1 /\ UNCHANGED <<text, dict, kind, ranges, got>>
Next == InWhole \/ NotInWhole \/ Alone \/ NotAlone \/ TheWords \/ Drop
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Done == pc = "done"
Raw(g) == Sub(text, ranges[g.slot][1], ranges[g.slot][2])
\* a slot of an open entity always has a value
C08_OpenKept == Done /\ kind = "open" => Len(got) = Len(ranges)
\* a known value is the value of exactly these words, wherever they stand
C08_Known == Done /\ kind # "builtin" => \A g \in RangeS(got) :
    IF Raw(g) \in dict THEN g.val = Raw(g) ELSE kind = "open" /\ g.val = <<"the words">> \o Raw(g)
C08_KnownKept == Done /\ kind # "builtin" => \A i \in 1..Len(ranges) :
    Sub(text, ranges[i][1], ranges[i][2]) \in dict => \E g \in RangeS(got) : g.slot = i
\* a value of a builtin entity is the value of a part of the words
C08_Builtin == Done /\ kind = "builtin" => \A g \in RangeS(got) :
    g.val \in dict /\ \E i \in 1..Len(Raw(g)) : i + Len(g.val) - 1 <= Len(Raw(g)) /\ SubSeq(Raw(g), i, i + Len(g.val) - 1) = g.val
C08_Order == \A i \in 1..(Len(got) - 1) : got[i].slot < got[i + 1].slot
\* the steps compute what the trace specification says
C08_AsSpecified == Done => LET want == ResolveAll([i \in 1..Len(ranges) |-> Slot(ranges[i])]) IN
    /\ Len(want) = Len(got)
    /\ \A i \in 1..Len(got) : want[i].val = got[i].val /\ want[i].s = ranges[got[i].slot][1]
Export == Done => CSVWrite("%1$s", <<ToJson([text |-> text, dict |-> SetToSeq(dict), kind |-> kind,
    ranges |-> [i \in 1..Len(ranges) |-> <<ranges[i][1], ranges[i][2]>>], kept |-> [i \in 1..Len(got) |-> got[i].slot]])>>, IOEnv.DUMP)
=============================================================================
