------------------------------ MODULE CrfDesign ------------------------------
(* Decoding of tags, one token at a time as the implementation does: a slot starts, goes on, ends.
   Every sequence of tags of a scheme up to MaxLen is explored; what the automaton yields must be the
   maximal runs of Crf!Slots. *)
EXTENDS Crf, Json, CSV, IOUtils
CONSTANTS SlotNames, MaxLen, Schemes
VARIABLES scheme, tags, i, start, slots, pc
vars == <<scheme, tags, i, start, slots, pc>>

Tags(s) == {Out} \cup { [m |-> m, n |-> n] : m \in Marks(s), n \in SlotNames }
Init == scheme \in Schemes /\ tags = <<>> /\ i = 1 /\ start = 1 /\ slots = <<>> /\ pc = "grow"

Grow == pc = "grow" /\ Len(tags) < MaxLen /\ \E t \in Tags(scheme) : tags' = Append(tags, t)
        /\ UNCHANGED <<scheme, i, start, slots, pc>>
Begin == pc = "grow" /\ pc' = "decode" /\ UNCHANGED <<scheme, tags, i, start, slots>>

PrevOut == i = 1 \/ IsOut(tags[i - 1])
NextOut == i = Len(tags) \/ IsOut(tags[i + 1])
StartsHere == IF IsOut(tags[i]) THEN FALSE ELSE IF PrevOut THEN TRUE ELSE Cut(scheme, tags[i - 1], tags[i])
EndsHere == IF IsOut(tags[i]) THEN FALSE ELSE IF NextOut THEN TRUE ELSE Cut(scheme, tags[i], tags[i + 1])
From == IF StartsHere THEN i ELSE start

Outside == pc = "decode" /\ i <= Len(tags) /\ IsOut(tags[i])
           /\ i' = i + 1 /\ UNCHANGED <<scheme, tags, start, slots, pc>>
Inside == pc = "decode" /\ i <= Len(tags) /\ ~IsOut(tags[i]) /\ ~EndsHere
          /\ start' = From /\ i' = i + 1 /\ UNCHANGED <<scheme, tags, slots, pc>>
EndSlot == pc = "decode" /\ i <= Len(tags) /\ EndsHere
           /\ slots' = Append(slots, [a |-> From, b |-> i, n |-> tags[i].n])
           /\ start' = i /\ i' = i + 1 /\ UNCHANGED <<scheme, tags, pc>>
Finish == pc = "decode" /\ i > Len(tags) /\ pc' = "done" /\ UNCHANGED <<scheme, tags, i, start, slots>>
Next == Grow \/ Begin \/ Outside \/ Inside \/ EndSlot \/ Finish
Spec == Init /\ [][Next]_vars

C10_MaximalRuns == pc = "done" => slots = Slots(scheme, tags)
C10_Partition ==                      \* every slot token in exactly one slot, no other token in any
    pc = "done" => \A k \in 1..Len(tags) :
        Cardinality({ j \in 1..Len(slots) : slots[j].a <= k /\ k <= slots[j].b }) = IF IsOut(tags[k]) THEN 0 ELSE 1
C10_InOrder == \A j \in 1..(Len(slots) - 1) : slots[j].b < slots[j + 1].a

Export == pc = "done" =>
    CSVWrite("%1$s", <<ToJson([scheme |-> scheme, tags |-> tags])>>, IOEnv.DUMP)
=============================================================================
