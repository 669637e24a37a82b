---------------------------- MODULE RulesDesign ----------------------------
(* The rule-based parsers, on texts that are sequences of words: collection of the entities, choice among
   those that overlap, then either the patterns (the text as given, then the text with every entity replaced)
   or the table (every way to replace some of the entities), intent by intent; then the weighing.
   Each intent has one utterance, where "N" stands for an entity. *)
EXTENDS Common, Json, CSV, IOUtils, Randomization
CONSTANTS TextWords, UttWords, MaxText, MaxUtt
VARIABLES kind, text, utt, ignore, keep, pc, spans, kept, todo, found, res
vars == <<kind, text, utt, ignore, keep, pc, spans, kept, todo, found, res>>
Intents == {"a", "b"}
Stop == "the"
Values == { <<"one">>, <<"one", "two">> }

Seqs(S, lo, hi) == UNION { [1..n -> S] : n \in lo..hi }
Blank == /\ pc = "collect" /\ spans = {} /\ kept = {} /\ todo = Intents /\ found = [i \in Intents |-> {}]
         /\ res = [intent |-> "?", slots |-> <<>>]
Init == /\ kind \in {"det", "look"} /\ text \in Seqs(TextWords, 0, MaxText)
        /\ utt \in [Intents -> Seqs(UttWords, 1, MaxUtt)]
        /\ ignore \in BOOLEAN /\ keep \in SUBSET Intents /\ (~ignore => keep = {})
        /\ Blank
\* a random instance, for the behaviours that are replayed
RandSeq(S, lo, hi) == LET n == RandomElement(lo..hi) IN [k \in 1..n |-> RandomElement(S)]
SimInit == /\ kind = "det" /\ text = <<>> /\ utt = [i \in Intents |-> <<"go">>] /\ ignore = TRUE /\ keep = {}
           /\ pc = "choose" /\ spans = {} /\ kept = {} /\ todo = Intents /\ found = [i \in Intents |-> {}]
           /\ res = [intent |-> "?", slots |-> <<>>]
SimChoose == /\ pc = "choose" /\ kind' = RandomElement({"det", "look"})
             /\ text' = RandSeq(TextWords, 0, MaxText)
             /\ utt' = [i \in Intents |-> RandSeq(UttWords, 1, MaxUtt)]
             /\ ignore' = RandomElement({TRUE, TRUE, FALSE}) /\ keep' = RandomElement(SUBSET Intents)
             /\ pc' = "collect" /\ UNCHANGED <<spans, kept, todo, found, res>>

\* ---- what the models hold and what the parsers compare
Drops(i) == ignore /\ i \notin keep
Drop(i, ws) == IF Drops(i) THEN SelectSeq(ws, LAMBDA w : w # Stop) ELSE ws
Pattern(i) == Drop(i, utt[i])
At(a, v) == a + Len(v) - 1 <= Len(text) /\ SubSeq(text, a, a + Len(v) - 1) = v
AllSpans == UNION { { [a |-> a, b |-> a + Len(v) - 1] : a \in { x \in 1..Len(text) : At(x, v) } } : v \in Values }
Over(x, y) == x.a <= y.b /\ y.a <= x.b
Span(S, p) == CHOOSE x \in S : x.a <= p /\ p <= x.b
RECURSIVE Replace(_, _)
Replace(S, p) == IF p > Len(text) THEN <<>>
                 ELSE IF \E x \in S : x.a <= p /\ p <= x.b THEN <<"N">> \o Replace(S, Span(S, p).b + 1)
                 ELSE <<text[p]>> \o Replace(S, p + 1)
Listed(S) == SetToSortSeq(S, LAMBDA x, y : x.a < y.a)

\* ---- the steps
Collect == /\ pc = "collect" /\ spans' = AllSpans /\ pc' = "dedup"
           /\ UNCHANGED <<kind, text, utt, ignore, keep, kept, todo, found, res>>
Take == /\ pc = "dedup" /\ spans # {}
        /\ LET best == CHOOSE x \in spans : \A y \in spans : x.b - x.a > y.b - y.a \/ (x.b - x.a = y.b - y.a /\ x.a <= y.a)
           IN /\ spans' = { y \in spans : ~Over(best, y) } /\ kept' = kept \cup {best}
        /\ UNCHANGED <<kind, text, utt, ignore, keep, pc, todo, found, res>>
EndDedup == /\ pc = "dedup" /\ spans = {} /\ pc' = "match" /\ UNCHANGED <<kind, text, utt, ignore, keep, spans, kept, todo, found, res>>
Patterns(i) == /\ pc = "match" /\ kind = "det" /\ i \in todo /\ todo' = todo \ {i}
               /\ found' = [found EXCEPT ![i] =
                     IF Drop(i, text) = Pattern(i) THEN {<<>>}
                     ELSE IF Drop(i, Replace(kept, 1)) = Pattern(i) THEN {Listed(kept)} ELSE {}]
               /\ UNCHANGED <<kind, text, utt, ignore, keep, pc, spans, kept, res>>
Subsets(i) == /\ pc = "match" /\ kind = "look" /\ i \in todo /\ todo' = todo \ {i}
              /\ found' = [found EXCEPT ![i] = { Listed(S) : S \in { T \in SUBSET kept : Drop(i, Replace(T, 1)) = Pattern(i) } }]
              /\ UNCHANGED <<kind, text, utt, ignore, keep, pc, spans, kept, res>>
W(n) == 60 \div (n + 1)
Best(i) == MaxOf({ W(Len(x)) : x \in found[i] })
Total == FoldSet(LAMBDA i, acc : acc + Best(i), 0, { i \in Intents : found[i] # {} })
Answer == /\ pc = "match" /\ todo = {} /\ pc' = "done"
          /\ LET win == { i \in Intents : found[i] # {} /\ 2 * Best(i) > Total }
             IN res' = IF win = {} THEN [intent |-> None, slots |-> <<>>]
                       ELSE LET i == CHOOSE i \in win : TRUE
                            IN [intent |-> i, slots |-> CHOOSE x \in found[i] : W(Len(x)) = Best(i)]
          /\ UNCHANGED <<kind, text, utt, ignore, keep, spans, kept, todo, found>>
Next == Collect \/ Take \/ EndDedup \/ (\E i \in Intents : Patterns(i) \/ Subsets(i)) \/ Answer
Spec == Init /\ [][Next]_vars
SimSpec == SimInit /\ [][SimChoose \/ Next]_vars

\* ---- the properties
Done == pc = "done"
\* the entities that are kept do not overlap, and each one left out overlaps one at least as long
Entities_Kept == pc = "match" =>
    /\ \A x, y \in kept : x # y => ~Over(x, y)
    /\ \A x \in AllSpans \ kept : \E y \in kept : Over(x, y) /\ y.b - y.a >= x.b - x.a
\* a pattern matches the words of a text one by one, an "N" standing for a run of words that is a value
RECURSIVE Fits(_, _, _)
Fits(p, ws, S) ==                      \* S: spans that may be replaced, positions from 1 in text; ws: positions left
    IF ws = <<>> THEN p = <<>>
    ELSE \/ (p # <<>> /\ Head(p) = text[Head(ws)] /\ (\A x \in S : ~(x.a <= Head(ws) /\ Head(ws) <= x.b)) /\ Fits(Tail(p), Tail(ws), S))
         \/ (p # <<>> /\ Head(p) = "N" /\ \E x \in S : x.a = Head(ws) /\ Fits(Tail(p), SelectSeq(ws, LAMBDA q : q > x.b), S))
Positions(i, S) == SelectSeq([k \in 1..Len(text) |-> k],
                             LAMBDA q : ~(Drops(i) /\ text[q] = Stop /\ \A x \in S : ~(x.a <= q /\ q <= x.b)))
Readings(i) == { S \in (IF kind = "det" THEN {{}, kept} ELSE SUBSET kept) : Fits(Pattern(i), Positions(i, S), S) }
C13_C14_ExactlyThePatterns == Done => \A i \in Intents : (found[i] # {}) = (Readings(i) # {})
C13_C14_Majority == Done =>
    LET lightest(i) == MinOf({ Cardinality(S) : S \in (IF kind = "det" /\ {} \in Readings(i) THEN {{}} ELSE Readings(i)) })
        hits == { i \in Intents : Readings(i) # {} }
    IN IF res.intent = None
       THEN \A i \in hits : \E j \in hits \ {i} : lightest(j) <= lightest(i)
       ELSE /\ res.intent \in hits /\ \A j \in hits \ {res.intent} : lightest(j) > lightest(res.intent)
            /\ \E S \in Readings(res.intent) : res.slots = Listed(S)
\* stop words count for nothing for the intents that do not keep them, and count for those that do
Without(ws) == SelectSeq(ws, LAMBDA w : w # Stop)
C15_Ignored == Done => \A i \in Intents : Drops(i) /\ Without(text) = Without(utt[i]) => found[i] # {}
C15_Kept == Done => \A i \in Intents : ~Drops(i) /\ found[i] # {} =>
    Count(text, LAMBDA w : w = Stop) = Count(utt[i], LAMBDA w : w = Stop)
C13_SlotsAreValues == Done => \A k \in 1..Len(res.slots) : SubSeq(text, res.slots[k].a, res.slots[k].b) \in Values
Export == Done => CSVWrite("%1$s", <<ToJson([kind |-> kind, text |-> text, utt |-> utt, ignore |-> ignore,
                                              keep |-> SetToSeq(keep), res |-> res])>>, IOEnv.DUMP)
=============================================================================
