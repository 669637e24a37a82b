---------------------------- MODULE EngineDesign ----------------------------
(* The state machine follows the implementation step by step: the filters are checked, the
   parsers are tried in order until one finds an intent, and when alternatives are asked for the
   scores of all the parsers are merged and the best remaining intents are collected.
   The parsers are abstract: each has a score for every intent and for the absence of intent.
   A statistical parser answers with a best allowed one; a rule-based parser answers with an intent
   that has more than half of the weight of the allowed ones, if there is one.  *)
EXTENDS Engine, Json, CSV, IOUtils, Randomization

---------------------------------------------------------------------------
CONSTANTS Known, NParsers, Levels, MaxAlt

Ghost == "ghost"                      \* an intent the engine does not know
VARIABLES pc, tab, kind, wl, bl, ia, k, none, result, score, alts
vars == <<pc, tab, kind, wl, bl, ia, k, none, result, score, alts>>

Filters == { [g |-> FALSE, l |-> <<>>] } \cup
           { [g |-> TRUE, l |-> SetToSeq(S)] : S \in SUBSET Known } \cup
           { [g |-> TRUE, l |-> <<Ghost>>] }
Top == MaxOf(Levels)

Init ==
    /\ tab \in [1..NParsers -> [Known \cup {None} -> Levels]]
    /\ kind \in [1..NParsers -> {"stat", "rule"}]
    /\ wl \in Filters /\ bl \in Filters /\ ia \in 0..MaxAlt
    /\ pc = "filter" /\ k = 1 /\ none = 0 /\ result = None /\ score = 0 /\ alts = <<>>

A == Allowed(Known, wl, bl)

RefuseFilters ==
    /\ pc = "filter" /\ Unknowns(Known, wl, bl) # {}
    /\ pc' = "refused"
    /\ UNCHANGED <<tab, kind, wl, bl, ia, k, none, result, score, alts>>

AcceptFilters ==
    /\ pc = "filter" /\ Unknowns(Known, wl, bl) = {}
    /\ pc' = "cascade"
    /\ UNCHANGED <<tab, kind, wl, bl, ia, k, none, result, score, alts>>

\* what parser p may answer
Weight(p) == FoldSet(LAMBDA x, acc : acc + tab[p][x], 0, A)
Answers(p) ==
    IF kind[p] = "stat"
    THEN { x \in A \cup {None} : \A y \in A \cup {None} : tab[p][x] >= tab[p][y] }
    ELSE LET win == { x \in A : 2 * tab[p][x] > Weight(p) } IN IF win = {} THEN {None} ELSE win
AnswerScore(p, x) == IF kind[p] = "rule" /\ x = None THEN Top ELSE tab[p][x]

ParserFinds ==
    /\ pc = "cascade" /\ k <= NParsers
    /\ \E x \in Answers(k) \ {None} :
         /\ result' = x /\ score' = AnswerScore(k, x)
         /\ pc' = IF ia = 0 THEN "done" ELSE "alternatives"
    /\ UNCHANGED <<tab, kind, wl, bl, ia, k, none, alts>>

ParserFindsNothing ==
    /\ pc = "cascade" /\ k <= NParsers
    /\ None \in Answers(k)
    /\ none' = AnswerScore(k, None) /\ k' = k + 1
    /\ UNCHANGED <<pc, tab, kind, wl, bl, ia, result, score, alts>>

GiveUp ==
    /\ pc = "cascade" /\ k > NParsers
    /\ result' = None /\ score' = none
    /\ pc' = IF ia = 0 THEN "done" ELSE "alternatives"
    /\ UNCHANGED <<tab, kind, wl, bl, ia, k, none, alts>>

\* rule-based parsers list zero for the absence of intent
ListScore(p, x) == IF kind[p] = "rule" /\ x = None THEN 0 ELSE tab[p][x]
Best(x) == MaxOf({ ListScore(p, x) : p \in 1..NParsers })
TakeAlternative ==                    \* the best remaining allowed one
    /\ pc = "alternatives" /\ Len(alts) < ia
    /\ LET taken == { alts[j].i : j \in 1..Len(alts) } \cup {result}
           left == (A \cup {None}) \ taken
       IN /\ left # {}
          /\ \E x \in left : /\ \A y \in left : Best(x) >= Best(y)
                             /\ alts' = Append(alts, [i |-> x, s |-> Best(x)])
    /\ UNCHANGED <<pc, tab, kind, wl, bl, ia, k, none, result, score>>
EndAlternatives ==
    /\ pc = "alternatives"
    /\ Len(alts) = ia \/ (A \cup {None}) \subseteq ({ alts[j].i : j \in 1..Len(alts) } \cup {result})
    /\ pc' = "done"
    /\ UNCHANGED <<tab, kind, wl, bl, ia, k, none, result, score, alts>>

Next == RefuseFilters \/ AcceptFilters \/ ParserFinds \/ ParserFindsNothing \/ GiveUp
        \/ TakeAlternative \/ EndAlternatives
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The properties, on the design. *)
Done == pc = "done"
C01_FiltersSound ==
    Done => /\ result \in A \cup {None}
            /\ \A j \in 1..Len(alts) : alts[j].i \in A \cup {None}
            /\ A = {} => result = None
C02_Refusal == pc = "refused" <=> (pc # "filter" /\ Unknowns(Known, wl, bl) # {})
C03_FirstAnswers ==
    Done /\ result # None => \A p \in 1..(k - 1) : None \in Answers(p)
C03_NoneAnswer == Done /\ result = None => score = none /\ \A p \in 1..NParsers : None \in Answers(p)
C04_Alternatives ==
    Done => /\ Len(alts) = MinOf({ia, Cardinality((A \cup {None}) \ {result})})
            /\ Sorted(alts) /\ NamedOnce(alts)
            /\ result \notin Names(alts)
            /\ \A x \in (A \cup {None}) \ (Names(alts) \cup {result}) :
                 Len(alts) > 0 => Best(x) <= alts[Len(alts)].s
C05_Listing ==                        \* the merged score of an intent is the best of the parsers
    \A x \in Known \cup {None} : /\ \A p \in 1..NParsers : Best(x) >= ListScore(p, x)
                                 /\ \E p \in 1..NParsers : Best(x) = ListScore(p, x)
NeverStuck == pc \notin {"done", "refused"} => ENABLED Next

---------------------------------------------------------------------------
(* Simulation draws the parsers and the arguments at random instead of starting from all of them. *)
SimInit ==
    /\ tab = <<>> /\ kind = <<>> /\ wl = [g |-> FALSE, l |-> <<>>] /\ bl = wl /\ ia = 0
    /\ pc = "choose" /\ k = 1 /\ none = 0 /\ result = None /\ score = 0 /\ alts = <<>>
SimChoose ==
    /\ pc = "choose" /\ pc' = "filter"
    /\ \E t \in RandomSubset(1, [1..NParsers -> [Known \cup {None} -> Levels]]) : tab' = t
    /\ \E t \in RandomSubset(1, [1..NParsers -> {"stat", "rule"}]) : kind' = t
    /\ wl' = RandomElement(Filters) /\ bl' = RandomElement(Filters) /\ ia' = RandomElement(0..MaxAlt)
    /\ UNCHANGED <<k, none, result, score, alts>>
SimSpec == SimInit /\ [][SimChoose \/ Next]_vars

(* Scenarios for the real engine: every complete behaviour is written as a line of JSON. *)
Export ==
    pc \in {"done", "refused"} =>
        CSVWrite("%1$s", <<ToJson([tab |-> tab, kind |-> kind, wl |-> wl, bl |-> bl, ia |-> ia])>>, IOEnv.DUMP)
=============================================================================
