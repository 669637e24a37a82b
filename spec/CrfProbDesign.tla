--------------------------- MODULE CrfProbDesign ---------------------------
(* The definition of the probability of a sequence: for all weights of a small tagger, the weights of
   the paths sum to the total of the forward recursion, and replaced tags are known ones. *)
EXTENDS Crf
CONSTANTS Labels, MaxLen, Weights
VARIABLES state, trans, n
vars == <<state, trans, n>>
LabelSeq == SetToSeq(Labels)
Init == state = <<>> /\ trans \in [Labels -> [Labels -> Weights]] /\ n = 0
AddToken == n < MaxLen /\ \E f \in [Labels -> Weights] : state' = Append(state, f)
            /\ n' = n + 1 /\ UNCHANGED trans
Next == AddToken
Spec == Init /\ [][Next]_vars
Paths == [1..n -> Labels]
C29_SumsToOne == FoldSet(LAMBDA p, acc : acc + Weight(state, trans, p), 0, Paths) = Total(state, trans, Labels, n)
C29_ReplacedKnown ==
    \A t \in [1..n -> Labels \cup {"other"}] : RangeS(Replaced(LabelSeq, t)) \subseteq Labels
=============================================================================
