--------------------------- MODULE SlotListDesign ---------------------------
(* The slots listing of an intent: the parsers are asked in order, the first that locates slots is the last
   one asked, and its slots are resolved; a parser may fail, locate nothing, or locate slots of which all,
   some or none are kept.  Next to the listing, a parse goes through the same parsers for the same intent. *)
EXTENDS Engine, Json, CSV, IOUtils
CONSTANTS N, Careless
Does == {"nothing", "left", "kept", "both", "fails"}
VARIABLES does, k, pc, res, seen
vars == <<does, k, pc, res, seen>>

Slot(p, keep) == [p |-> p, keep |-> keep]
Located(p) ==
    CASE does[p] \in {"nothing", "fails"} -> <<>>
      [] does[p] = "left" -> << Slot(p, FALSE) >>
      [] does[p] = "kept" -> << Slot(p, TRUE) >>
      [] does[p] = "both" -> << Slot(p, FALSE), Slot(p, TRUE) >>
Answer(p) == [r |-> IF does[p] = "fails" THEN "err" ELSE "ok", slots |-> Located(p)]
All == [p \in 1..N |-> Answer(p)]
Kept(slots) == SelectSeq(slots, LAMBDA s : s.keep)

Init == does \in [1..N -> Does] /\ k = 1 /\ pc = "ask" /\ res = <<>> /\ seen = {}
Locates ==
    /\ pc = "ask" /\ k <= N /\ Answer(k).r = "ok" /\ Len(Answer(k).slots) > 0
    /\ ~(Careless /\ Kept(Answer(k).slots) = <<>>)
    /\ res' = Kept(Answer(k).slots) /\ pc' = "done" /\ seen' = seen \cup {k}
    /\ UNCHANGED <<does, k>>
LocatesNothing ==
    /\ pc = "ask" /\ k <= N /\ Answer(k).r = "ok"
    /\ Len(Answer(k).slots) = 0 \/ (Careless /\ Kept(Answer(k).slots) = <<>>)
    /\ k' = k + 1 /\ seen' = seen \cup {k}
    /\ UNCHANGED <<does, pc, res>>
Fails ==
    /\ pc = "ask" /\ k <= N /\ Answer(k).r # "ok"
    /\ pc' = "failed" /\ seen' = seen \cup {k}
    /\ UNCHANGED <<does, k, res>>
GiveUp == pc = "ask" /\ k > N /\ pc' = "done" /\ UNCHANGED <<does, k, res, seen>>
Next == Locates \/ LocatesNothing \/ Fails \/ GiveUp
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
C03_FirstWithSlots ==
    pc = "done" => res = IF FirstWithSlots(All) = 0 THEN <<>> ELSE Kept(All[FirstWithSlots(All)].slots)
C03_OneParser == \A i, j \in 1..Len(res) : res[i].p = res[j].p
C33_FailuresSeen == /\ pc = "failed" => SlotListFails(All)
                    /\ pc = "done" => ~SlotListFails(All)
C03_LaterNotAsked == pc = "done" /\ FirstWithSlots(All) # 0 => seen = 1..FirstWithSlots(All)
NeverStuck == pc = "ask" => ENABLED Next
Export == pc \in {"done", "failed"} => CSVWrite("%1$s", <<ToJson(does)>>, IOEnv.DUMP)
=============================================================================
