-------------------------- MODULE IsolationDesign --------------------------
(* Any sequence of actions on places and engines.  Mode says where an engine takes its answers from:
   "own": what it read when it was loaded;
   and the designs that must be refuted: "late": its place, at the time of the question; "place": what was first
   read from its place; "last": what was last read by any engine. *)
EXTENDS Isolation, Json, CSV, IOUtils
CONSTANTS Handles, Places, Models, MaxSteps, Mode
VARIABLES s, from, first, last, hist, answer
vars == <<s, from, first, last, hist, answer>>
Init == /\ s = State(Handles, Places) /\ from = [h \in Handles |-> "none"] /\ first = [p \in Places |-> Nothing]
        /\ last = Nothing /\ hist = <<>> /\ answer = [h |-> "none", c |-> Nothing, want |-> Nothing]
Do(a) == /\ Len(hist) < MaxSteps /\ ~Refused(s, a) /\ s' = After(s, a) /\ hist' = Append(hist, a)
Act(act, h, p, c) == [act |-> act, h |-> h, p |-> p, c |-> c]
Quiet == answer' = [h |-> "none", c |-> Nothing, want |-> Nothing]
Put(p, c) == s.at[p] # <<c, FALSE>> /\ Do(Act("put", "none", p, c)) /\ Quiet /\ UNCHANGED <<from, first, last>>
Wipe(p) == s.at[p] # Nothing /\ Do(Act("remove", "none", p, "none")) /\ Quiet /\ UNCHANGED <<from, first, last>>
Inject(p) == s.at[p] # Nothing /\ ~s.at[p][2] /\ Do(Act("inject", "none", p, "none")) /\ Quiet /\ UNCHANGED <<from, first, last>>
Load(h, p) == /\ Do(Act("load", h, p, "none")) /\ from' = [from EXCEPT ![h] = p] /\ last' = s.at[p]
              /\ first' = [first EXCEPT ![p] = IF @ = Nothing THEN s.at[p] ELSE @] /\ Quiet
Drop(h) == Do(Act("drop", h, "none", "none")) /\ Quiet /\ UNCHANGED <<from, first, last>>
Given(h) == CASE Mode = "own" -> s.held[h] [] Mode = "late" -> s.at[from[h]] [] Mode = "place" -> first[from[h]] [] Mode = "last" -> last
Ask(h) == /\ Do(Act("ask", h, "none", "none"))
          /\ answer' = [h |-> h, c |-> Given(h), want |-> s.held[h]] /\ UNCHANGED <<from, first, last>>
Next == \/ \E p \in Places : Wipe(p) \/ Inject(p) \/ (\E c \in Models : Put(p, c)) \/ (\E h \in Handles : Load(h, p))
        \/ \E h \in Handles : Drop(h) \/ Ask(h)
Spec == Init /\ [][Next]_vars
View == <<s, from, first, last, answer, Len(hist)>>

C35_OwnContent == answer.c = answer.want
\* only loading changes what an engine holds
C35_HeldSinceLoad == [][\A h \in Handles : s'.held[h] # s.held[h] => hist'[Len(hist')].h = h /\ hist'[Len(hist')].act \in {"load", "drop"}]_vars
\* actions on other engines and other places may come in any order: what two threads do side by side is what each does alone
Acts == { Act(a, h, p, "a") : a \in {"put", "remove", "inject", "load", "drop", "ask"}, h \in Handles, p \in Places }
C35_Apart == \A a, b \in Acts : a.h # b.h /\ a.p # b.p =>
    /\ After(After(s, a), b) = After(After(s, b), a)
    /\ After(s, b).at[a.p] = s.at[a.p] /\ After(s, b).held[a.h] = s.held[a.h]
\* one behaviour of each kind that matters: the end is a question to an engine whose place has changed, or that is not the last loaded
Export == Len(hist) = MaxSteps /\ hist[Len(hist)].act = "ask" =>
    CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.DUMP)
=============================================================================
