------------------------------ MODULE ProbDesign ------------------------------
(* The probabilistic parser step by step: classify among the allowed intents, find the slot filler, fill.
   Careless: the filler is chosen from the best intent of all, allowed or not. *)
EXTENDS Prob, Json, CSV, IOUtils

CONSTANTS Intents, Levels, Careless
VARIABLES score, clfok, kinds, ask, pc, chosen, ans
vars == <<score, clfok, kinds, ask, pc, chosen, ans>>

Names == Intents \cup {None}
Asks == { [op |-> "parse", all |-> TRUE, allowed |-> {}, i |-> None] }
        \cup { [op |-> "parse", all |-> FALSE, allowed |-> a, i |-> None] : a \in SUBSET Intents }
        \cup { [op |-> "slots", all |-> TRUE, allowed |-> {}, i |-> i] : i \in Intents \cup {"stranger"} }
        \cup { [op |-> "listing", all |-> TRUE, allowed |-> {}, i |-> None] }
Allowed(n) == n = None \/ ask.all \/ n \in ask.allowed
Best(S) == { n \in S : \A m \in S : score[n] >= score[m] }
SlotsMade(i) == IF kinds[i] = "slots" THEN << <<"slot of", i>> >> ELSE <<>>
Fillers == [ i \in { x \in Intents : kinds[x] # "missing" } |->
                [r |-> IF kinds[i] = "fails" THEN "err" ELSE "ok", slots |-> SlotsMade(i)] ]

Init ==
    /\ score \in [Names -> Levels] /\ clfok \in BOOLEAN
    /\ kinds \in [Intents -> {"missing", "slots", "empty", "fails"}]
    /\ ask \in Asks
    /\ pc = "start" /\ chosen = None /\ ans = <<>>

End(a) == pc' = "done" /\ ans' = <<a>> /\ UNCHANGED <<score, clfok, kinds, ask>>
ClassifierFails ==
    /\ pc = "start" /\ ask.op # "slots" /\ ~clfok
    /\ End(Failure("classifier")) /\ UNCHANGED chosen
List ==
    /\ pc = "start" /\ ask.op = "listing" /\ clfok
    /\ End([r |-> "ok", list |-> score]) /\ UNCHANGED chosen
Classify ==
    /\ pc = "start" /\ ask.op = "parse" /\ clfok
    /\ \E n \in Best({ m \in Names : Allowed(m) }) : chosen' = n
    /\ pc' = "chosen" /\ UNCHANGED <<score, clfok, kinds, ask, ans>>
Given ==
    /\ pc = "start" /\ ask.op = "slots"
    /\ chosen' = ask.i /\ pc' = "chosen" /\ UNCHANGED <<score, clfok, kinds, ask, ans>>
NoIntent ==
    /\ pc = "chosen" /\ chosen = None
    /\ End(Gives(None, score[None], <<>>)) /\ UNCHANGED chosen
ByFiller == IF Careless THEN (CHOOSE n \in Best(Names) : TRUE) ELSE chosen
NoFiller ==
    /\ pc = "chosen" /\ chosen # None /\ chosen \notin DOMAIN Fillers
    /\ End(Failure("unknown")) /\ UNCHANGED chosen
Fill ==
    /\ pc = "chosen" /\ chosen # None /\ chosen \in DOMAIN Fillers
    /\ IF Fillers[chosen].r # "ok" THEN End(Failure(chosen))
       ELSE End(Gives(chosen, IF ask.op = "parse" THEN score[chosen] ELSE 0,
                      IF ByFiller \in DOMAIN Fillers THEN Fillers[ByFiller].slots ELSE <<>>))
    /\ UNCHANGED chosen
Next == ClassifierFails \/ List \/ Classify \/ Given \/ NoIntent \/ NoFiller \/ Fill
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Done == pc = "done"
A == ans[1]
C34_OwnFiller == Done /\ ask.op # "listing" /\ A.r = "ok" => A.slots = IF A.n = None THEN <<>> ELSE SlotsMade(A.n)
C34_Allowed == Done /\ ask.op = "parse" /\ A.r = "ok" => Allowed(A.n) /\ A.s = score[A.n]
C34_Fails == Done => (A.r = "err") = (IF ask.op = "slots" THEN ask.i \notin Intents \/ kinds[ask.i] \in {"missing", "fails"}
                                     ELSE ~clfok \/ (ask.op = "parse" /\ chosen # None /\ kinds[chosen] \in {"missing", "fails"}))
C34_OthersDoNotMatter == Done /\ A.r = "err" => A.who \in {"classifier", "unknown"} \cup {chosen}
C34_AsSpecified == Done /\ ask.op # "listing" =>
    A = IF ask.op = "slots" THEN SlotsFor(ask.i, Fillers)
        ELSE Parse([r |-> IF clfok THEN "ok" ELSE "err", n |-> chosen, s |-> IF clfok THEN score[chosen] ELSE 0], Fillers)

\* one configuration, whatever is asked
Export == Done /\ ask.op = "listing" =>
    CSVWrite("%1$s", <<ToJson([score |-> score, clfok |-> clfok, kinds |-> kinds])>>, IOEnv.DUMP)
=============================================================================
