------------------------------ MODULE PyDesign ------------------------------
(* Python threads that share engines: what the library hands over (engines, texts) is given back once, and not while
   it is used. An operation is: the call, the copy of the text that the call handed over, and the return of this text;
   a failed call hands over nothing, but asking for its message does. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Threads, Engines, MaxOps, Careful    \* Careful: an engine is destroyed when nothing refers to it any more

VARIABLES pc, use, owned, gone, held, back, log, ends
vars == <<pc, use, owned, gone, held, back, log, ends>>
Init == /\ pc = [t \in Threads |-> "idle"] /\ use = [t \in Threads |-> 0] /\ owned = {} /\ gone = {} /\ held = {} /\ back = {}
        /\ log = <<>> /\ ends = {}
More == Len(log) < MaxOps
Log(t, act, e) == log' = Append(log, [t |-> t, act |-> act, e |-> e])
\* the text handed over to a thread during its operation n
Text(t) == [t |-> t, n |-> Cardinality({ k \in 1..Len(log) : log[k].t = t })]

Create(t, e) == /\ More /\ pc[t] = "idle" /\ e \notin owned \cup gone /\ owned' = owned \cup {e} /\ Log(t, "create", e)
                /\ UNCHANGED <<pc, use, gone, held, back, ends>>
CreateFails(t, e) == /\ More /\ pc[t] = "idle" /\ e \notin owned \cup gone /\ pc' = [pc EXCEPT ![t] = "failed"] /\ Log(t, "create-bad", e)
                     /\ UNCHANGED <<use, owned, gone, held, back, ends>>
Refuse(t, e) == /\ More /\ pc[t] = "idle" /\ e \in owned /\ Log(t, "refused", e) /\ ends' = ends \cup {Len(log) + 1}
                /\ UNCHANGED <<pc, use, owned, gone, held, back>>
Call(t, e, good) == /\ More /\ pc[t] = "idle" /\ e \in owned /\ use' = [use EXCEPT ![t] = e]
                    /\ pc' = [pc EXCEPT ![t] = IF good THEN "in" ELSE "in-bad"]
                    /\ Log(t, IF good THEN "call" ELSE "call-bad", e) /\ UNCHANGED <<owned, gone, held, back, ends>>
Answer(t) == /\ pc[t] = "in" /\ pc' = [pc EXCEPT ![t] = "holding"] /\ held' = held \cup {Text(t)} /\ UNCHANGED <<use, owned, gone, back, log, ends>>
Fail(t) == /\ pc[t] = "in-bad" /\ pc' = [pc EXCEPT ![t] = "failed"] /\ UNCHANGED <<use, owned, gone, held, back, log, ends>>
AskWhy(t) == /\ pc[t] = "failed" /\ pc' = [pc EXCEPT ![t] = "holding"] /\ held' = held \cup {Text(t)} /\ UNCHANGED <<use, owned, gone, back, log, ends>>
GiveBack(t) == /\ pc[t] = "holding" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ held' = held \ {Text(t)} /\ back' = back \cup {Text(t)}
               /\ use' = [use EXCEPT ![t] = 0] /\ UNCHANGED <<owned, gone, log, ends>>
Drop(t, e) == /\ More /\ pc[t] = "idle" /\ e \in owned /\ owned' = owned \ {e} /\ Log(t, "drop", e)
              /\ gone' = (IF Careful THEN gone ELSE gone \cup {e}) /\ UNCHANGED <<pc, use, held, back, ends>>
Collect(e) == /\ Careful /\ e \notin owned \cup gone /\ (\E k \in 1..Len(log) : log[k].e = e /\ log[k].act = "create")
              /\ (\A t \in Threads : use[t] # e) /\ gone' = gone \cup {e} /\ UNCHANGED <<pc, use, owned, held, back, log, ends>>
Next == \/ \E t \in Threads : Answer(t) \/ Fail(t) \/ AskWhy(t) \/ GiveBack(t)
        \/ \E t \in Threads, e \in Engines : Create(t, e) \/ CreateFails(t, e) \/ Refuse(t, e) \/ Call(t, e, TRUE) \/ Call(t, e, FALSE) \/ Drop(t, e)
        \/ \E e \in Engines : Collect(e)
Spec == Init /\ [][Next]_vars

C28_NothingKept == \A t \in Threads : pc[t] = "idle" => \A x \in held : x.t # t
C28_BackOnce == held \cap back = {}
C28_UseLive == \A t \in Threads : use[t] # 0 => use[t] \notin gone
Idle == (\A t \in Threads : pc[t] = "idle") /\ Len(log) = MaxOps /\ (\A e \in Engines : ENABLED Collect(e) => FALSE)
C28_AllBack == Idle => held = {}
Export == Idle => CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.DUMP)
=============================================================================
