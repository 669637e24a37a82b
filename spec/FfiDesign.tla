------------------------------ MODULE FfiDesign ------------------------------
(* Threads that create engines, call them and ask for the message of a failure, in any order. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Threads, Engines, MaxSteps

VARIABLES handle, err, held, steps
vars == <<handle, err, held, steps>>
NoErr == 0
Init == /\ handle = [e \in Engines |-> "none"] /\ err = [t \in Threads |-> NoErr] /\ held = {} /\ steps = <<>>
More == Len(steps) < MaxSteps
Me == Len(steps) + 1                               \* a failure is known by its step
Log(t, act, e, said) == steps' = Append(steps, [t |-> t, act |-> act, e |-> e, said |-> said])
Create(t, e) == /\ More /\ handle[e] = "none" /\ handle' = [handle EXCEPT ![e] = "live"]
                /\ Log(t, "create", e, NoErr) /\ UNCHANGED <<err, held>>
CreateFails(t, e) == /\ More /\ handle[e] = "none" /\ err' = [err EXCEPT ![t] = Me]
                     /\ Log(t, "create-bad", e, NoErr) /\ UNCHANGED <<handle, held>>
Call(t, e) == /\ More /\ handle[e] = "live" /\ held' = held \cup {Me}
              /\ Log(t, "call", e, NoErr) /\ UNCHANGED <<handle, err>>
CallFails(t, e) == /\ More /\ handle[e] = "live" /\ err' = [err EXCEPT ![t] = Me]
                   /\ Log(t, "call-bad", e, NoErr) /\ UNCHANGED <<handle, held>>
Ask(t) == /\ More /\ err' = [err EXCEPT ![t] = NoErr] /\ Log(t, "ask", 0, err[t]) /\ UNCHANGED <<handle, held>>
Release(t) == /\ More /\ held # {} /\ \E o \in held : held' = held \ {o} /\ Log(t, "release", o, NoErr) /\ UNCHANGED <<handle, err>>
Destroy(t, e) == /\ More /\ handle[e] = "live" /\ handle' = [handle EXCEPT ![e] = "gone"]
                 /\ Log(t, "destroy", e, NoErr) /\ UNCHANGED <<err, held>>
Next == \E t \in Threads : Ask(t) \/ Release(t) \/ \E e \in Engines : Create(t, e) \/ CreateFails(t, e) \/ Call(t, e) \/ CallFails(t, e) \/ Destroy(t, e)
Spec == Init /\ [][Next]_vars

Failed(k) == steps[k].act \in {"create-bad", "call-bad"}
\* a thread reads the message of its own last failure, once
C27_OwnMessage == \A k \in 1..Len(steps) : steps[k].act = "ask" =>
    LET t == steps[k].t
        mine == { j \in 1..(k - 1) : steps[j].t = t /\ (Failed(j) \/ steps[j].act = "ask") }
        last == IF mine = {} THEN 0 ELSE CHOOSE j \in mine : \A i \in mine : i <= j
    IN steps[k].said = IF last # 0 /\ Failed(last) THEN last ELSE NoErr
C27_OneOwner == \A e \in Engines : Cardinality({ k \in 1..Len(steps) : steps[k].act = "destroy" /\ steps[k].e = e }) <= 1
C27_LiveUse == \A k \in 1..Len(steps) : steps[k].act \in {"call", "call-bad", "destroy"} =>
    /\ \E j \in 1..(k - 1) : steps[j].act = "create" /\ steps[j].e = steps[k].e
    /\ ~\E j \in 1..(k - 1) : steps[j].act = "destroy" /\ steps[j].e = steps[k].e
Export == Len(steps) = MaxSteps => CSVWrite("%1$s", <<ToJson(steps)>>, IOEnv.DUMP)
=============================================================================
