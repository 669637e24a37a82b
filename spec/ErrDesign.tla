------------------------------ MODULE ErrDesign ------------------------------
(* An engine at work: it consults its parts one after the other and stops at the first answer or fault. Alternatives take three
   rounds. Careless: a fault of a part is taken for an empty answer. *)
EXTENDS Err, Json, IOUtils, CSV
CONSTANTS MaxParts, Kinds, Careless
VARIABLES op, parts, round, past, k, top, met, outcome
vars == <<op, parts, round, past, k, top, met, outcome>>
Nothing == [err |-> {}, x |-> "none"]
Init == /\ op \in Ops /\ parts = <<>> /\ round = "building" /\ k = 1 /\ top = "none" /\ met = {} /\ outcome = Nothing /\ past = {}
AddPart == /\ round = "building" /\ Len(parts) < MaxParts
           /\ \E kind \in Kinds : \E s \in Scripts(kind) : parts' = Append(parts, [kind |-> kind, script |-> s])
           /\ UNCHANGED <<op, round, past, k, top, met, outcome>>
Start == /\ round = "building" /\ Len(parts) > 0
         /\ round' = (IF op = "alternatives" THEN "parse" ELSE op)
         /\ UNCHANGED <<op, parts, past, k, top, met, outcome>>
Here == Step(round, parts[k], k)
Busy == round \notin {"building", "over"} /\ k <= Len(parts)
Fault == /\ Busy /\ Here.err # {} /\ ~Careless
         /\ met' = met \cup Here.err /\ outcome' = Here /\ round' = "over" /\ UNCHANGED <<op, parts, past, k, top>>
Swallow == /\ Busy /\ Here.err # {} /\ Careless
           /\ met' = met \cup Here.err /\ k' = k + 1 /\ UNCHANGED <<op, parts, round, past, top, outcome>>
Next1 == /\ Busy /\ Here.err = {} /\ ~Stops(round, Here.x) /\ k' = k + 1 /\ UNCHANGED <<op, parts, round, past, top, met, outcome>>
\* the rounds still to come after this one: the slots of the other intents are looked for in any order
Needed == {"otherslots"} \cup (IF top = "none" THEN {"slots"} ELSE {})
Left == Needed \ (past \cup {round})
After == CASE op # "alternatives" -> {"over"}
           [] round = "parse" -> {"listing"}
           [] round = "listing" -> Needed
           [] OTHER -> IF Left = {} THEN {"over"} ELSE Left
Finish(x) == /\ k' = 1 /\ top' = (IF round \in {"parse", "other"} THEN x ELSE top)
             /\ outcome' = (IF op = "alternatives" /\ round # "parse" THEN outcome ELSE [err |-> {}, x |-> x])
             /\ past' = past \cup {round} /\ UNCHANGED <<op, parts, met>>
Found == /\ Busy /\ Here.err = {} /\ Stops(round, Here.x) /\ Finish(Here.x)
         /\ round' \in After
Nobody == /\ round \notin {"building", "over"} /\ k > Len(parts) /\ Finish("none") /\ round' \in After
Next == AddPart \/ Start \/ Fault \/ Next1 \/ Found \/ Nobody
Spec == Init /\ [][Next]_vars
SpecCareless == Init /\ [][Next \/ Swallow]_vars
Over == round = "over"
C33_Reported == Over /\ met # {} => outcome.err = met                     \* what has failed is reported
C33_NoBlame == Over /\ outcome.err # {} => outcome.err \subseteq met       \* and nothing else
C33_Declared == Over => IF outcome.err = {} THEN outcome = Outcome(op, parts) ELSE outcome.err \subseteq Outcome(op, parts).err
Export == Over => CSVWrite("%1$s", <<ToJson([op |-> op, parts |-> parts, err |-> Outcome(op, parts).err, x |-> Outcome(op, parts).x])>>, IOEnv.DUMP)
=============================================================================
