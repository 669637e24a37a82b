----------------------------- MODULE TotalDesign -----------------------------
(* An engine is asked for texts made of fragments, each repeated 2^n times, one text after the other. Each call takes the lock of a cache, has the
   text read by a part, and puts the lock back, whatever the part makes of the text. Reckless: a part gives up on some
   fragments without answering, which leaves the lock unusable. *)
EXTENDS Total, Json, IOUtils, CSV
CONSTANTS Fragments, MaxLen, MaxDouble, MaxCalls, Reckless
VARIABLES text, known, pc, lock, outcome, calls
vars == <<text, known, pc, lock, outcome, calls>>
Failing(t) == \E i \in 1..Len(t) : t[i].f = 0   \* the fragment 0 makes a part fail
Odd(t) == Len(t) > 1                             \* and some are beyond what its author thought of
Init == text = <<>> /\ known \in BOOLEAN /\ pc = "writing" /\ lock = "free" /\ outcome = "none" /\ calls = 0
Add(f) == pc = "writing" /\ Len(text) < MaxLen /\ text' = Append(text, [f |-> f, n |-> 0]) /\ UNCHANGED <<known, pc, lock, outcome, calls>>
Double == /\ pc = "writing" /\ Len(text) > 0 /\ text[Len(text)].n < MaxDouble /\ text' = [text EXCEPT ![Len(text)].n = @ + 1]
          /\ UNCHANGED <<known, pc, lock, outcome, calls>>
Ask == pc = "writing" /\ calls < MaxCalls /\ pc' = (IF lock = "unusable" THEN "lost" ELSE "asked") /\ calls' = calls + 1 /\ UNCHANGED <<text, known, lock, outcome>>
Refuse == pc = "asked" /\ ~known /\ pc' = "done" /\ outcome' = "err" /\ UNCHANGED <<text, known, lock, calls>>
Take == pc = "asked" /\ known /\ lock = "free" /\ lock' = "held" /\ pc' = "reading" /\ UNCHANGED <<text, known, outcome, calls>>
Answer == pc = "reading" /\ ~Failing(text) /\ ~(Reckless /\ Odd(text)) /\ lock' = "free" /\ pc' = "done" /\ outcome' = "ok" /\ UNCHANGED <<text, known, calls>>
Fail == pc = "reading" /\ Failing(text) /\ ~(Reckless /\ Odd(text)) /\ lock' = "free" /\ pc' = "done" /\ outcome' = "err" /\ UNCHANGED <<text, known, calls>>
GiveUp == pc = "reading" /\ Reckless /\ Odd(text) /\ lock' = "unusable" /\ pc' = "lost" /\ outcome' = "panic" /\ UNCHANGED <<text, known, calls>>
Again == pc = "done" /\ calls < MaxCalls /\ pc' = "writing" /\ text' = <<>> /\ known' \in BOOLEAN /\ UNCHANGED <<lock, outcome, calls>>
Next == (\E f \in Fragments : Add(f)) \/ Double \/ Ask \/ Refuse \/ Take \/ Answer \/ Fail \/ Again
NextReckless == Next \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Refuse \/ Take \/ Answer \/ Fail)
SpecReckless == Init /\ [][NextReckless]_vars
C31_Ends == pc # "lost"
C31_Outcome == pc = "done" => outcome \in Outcomes(known, Failing(text))
C31_Usable == pc \in {"writing", "done"} => lock = "free"
C31_Answered == (pc = "asked") ~> (pc = "done")
Export == (pc = "writing" /\ calls = 0 /\ known) => CSVWrite("%1$s", <<ToJson(text)>>, IOEnv.DUMP)
=============================================================================
