--------------------------- MODULE InjectionDesign ---------------------------
(* How an injection changes the files of an engine, one step at a time, with a process that may die between any two steps.
   Each entity has two folders, a and b; the metadata tell which one is used. *)
EXTENDS Injection, Json, IOUtils, CSV
CONSTANTS Entities, Raws, Names, Safe, MaxInjections, Usage

VARIABLES used, dirs, job, before, goal, hist
vars == <<used, dirs, job, before, goal, hist>>
Idle == [on |-> FALSE]
Other(x) == IF x = "a" THEN "b" ELSE "a"
Trained == << { [k |-> <<"t">>, r |-> "T", own |-> TRUE], [k |-> <<"x">>, r |-> "TX", own |-> TRUE] } >>
Vals == [low : { <<r>> : r \in Raws }, stem : { <<"s">> }, r : Names]
Now(e) == dirs[e][used[e]].c
Init == /\ used = [e \in Entities |-> "a"]
        /\ dirs = [e \in Entities |-> [d \in {"a", "b"} |-> IF d = "a" THEN [st |-> "full", c |-> Trained] ELSE [st |-> "none", c |-> <<>>]]]
        /\ job = Idle /\ hist = <<>>
        /\ before = [e \in Entities |-> Trained] /\ goal = [e \in Entities |-> Trained]

Asked == { f \in [Entities -> SUBSET Vals] : \A e \in Entities : Cardinality(f[e]) <= 1 }
Log(x) == hist' = Append(hist, x)
Pairs(f) == SetToSeq({ [e |-> e, v |-> CHOOSE v \in f[e] : TRUE] : e \in { e \in Entities : f[e] # {} } })
Begin(f, vanilla) ==
    /\ ~job.on /\ Len(hist) < MaxInjections
    /\ LET todo == { e \in Entities : f[e] # {} }
       IN /\ job' = [on |-> TRUE, todo |-> todo, pc |-> "pick", e |-> None, f |-> f, vanilla |-> vanilla]
          /\ before' = [e \in Entities |-> Now(e)]
          /\ goal' = [e \in Entities |-> Inject(Usage, Now(e), f[e], vanilla)]
    /\ Log([v |-> Pairs(f), vanilla |-> vanilla, end |-> "done", at |-> "end"])
    /\ UNCHANGED <<used, dirs>>
Refuse(f) ==                                       \* one of the entities cannot be injected
    /\ ~job.on /\ Len(hist) < MaxInjections
    /\ Log([v |-> Pairs(f), vanilla |-> FALSE, end |-> "refused", at |-> "end"])
    /\ UNCHANGED <<used, dirs, job, before, goal>>
Pick(e) == /\ job.on /\ job.pc = "pick" /\ e \in job.todo
           /\ job' = [job EXCEPT !.pc = IF Safe THEN "clean" ELSE "drop", !.e = e, !.todo = @ \ {e}]
           /\ UNCHANGED <<used, dirs, before, goal, hist>>
At(pc) == job.on /\ job.pc = pc
Put(d, x) == dirs' = [dirs EXCEPT ![job.e][d] = x]
To(pc) == job' = [job EXCEPT !.pc = pc]
Here == used[job.e]
New == IF Safe THEN Other(Here) ELSE Here
Clean == At("clean") /\ Put(New, [st |-> "none", c |-> <<>>]) /\ To("make") /\ UNCHANGED <<used, before, goal, hist>>
Drop == At("drop") /\ Put(Here, [st |-> "none", c |-> <<>>]) /\ To("make") /\ UNCHANGED <<used, before, goal, hist>>
Make == At("make") /\ Put(New, [st |-> "part", c |-> <<>>]) /\ To("fill") /\ UNCHANGED <<used, before, goal, hist>>
Fill == /\ At("fill") /\ Put(New, [st |-> "full", c |-> goal[job.e]]) /\ To(IF Safe THEN "switch" ELSE "pick")
        /\ UNCHANGED <<used, before, goal, hist>>
Switch == /\ At("switch") /\ used' = [used EXCEPT ![job.e] = New] /\ To("old")
          /\ UNCHANGED <<dirs, before, goal, hist>>
Old == At("old") /\ Put(Other(Here), [st |-> "part", c |-> <<>>]) /\ To("gone") /\ UNCHANGED <<used, before, goal, hist>>
Gone == At("gone") /\ Put(Other(Here), [st |-> "none", c |-> <<>>]) /\ To("pick") /\ UNCHANGED <<used, before, goal, hist>>
End == At("pick") /\ job.todo = {} /\ job' = Idle /\ UNCHANGED <<used, dirs, before, goal, hist>>
Crash == /\ job.on /\ job' = Idle
         /\ hist' = [hist EXCEPT ![Len(hist)].end = "crash", ![Len(hist)].at = job.pc]
         /\ UNCHANGED <<used, dirs, before, goal>>
\* the values of different entities are chosen alike, to keep the instance small
Next == \/ \E f \in Asked : \E vanilla \in BOOLEAN : Begin(f, vanilla)
        \/ \E f \in Asked : Refuse(f)
        \/ \E e \in Entities : Pick(e)
        \/ Clean \/ Drop \/ Make \/ Fill \/ Switch \/ Old \/ Gone \/ End \/ Crash
Spec == Init /\ [][Next]_vars
SpecBegin == \E f \in Asked : \E vanilla \in BOOLEAN : Begin(f, vanilla)
SafeNext == \/ \E f \in Asked : \E vanilla \in BOOLEAN : Begin(f, vanilla)
            \/ \E f \in Asked : Refuse(f)
            \/ \E e \in Entities : Pick(e)
            \/ Clean \/ Make \/ Fill \/ Switch \/ Old \/ Gone \/ End \/ Crash
SafeSpec == Init /\ [][SafeNext]_vars

C23_Loads == \A e \in Entities : dirs[e][used[e]].st = "full"
C23_OldOrNew == \A e \in Entities : Now(e) \in {before[e], goal[e]}
C21_Done == (~job.on /\ hist # <<>> /\ hist[Len(hist)].end = "done") => \A e \in Entities : Now(e) = goal[e]
C21_Others == \A e \in Entities : goal[e] # before[e] => \E i \in 1..Len(hist) : \E j \in 1..Len(hist[i].v) : hist[i].v[j].e = e
\* every injected value is found, whatever was known, and the most recent injection decides
C21_Found == (~job.on /\ hist # <<>> /\ hist[Len(hist)].end = "done") =>
    LET h == hist[Len(hist)]
    IN \A i \in 1..Len(h.v) :
         LET x == h.v[i] toks == << [w |-> x.v.low[1], s |-> 0, e |-> 1] >>
         IN Usage # 0 => Answers(Now(x.e), toks, << [s |-> 0, e |-> 1, r |-> x.v.r, others |-> <<>>] >>, 0)
\* and none of them is forgotten because another shares its words
C21_Shared == (~job.on /\ hist # <<>> /\ hist[Len(hist)].end = "done") =>
    LET h == hist[Len(hist)]
    IN \A i \in 1..Len(h.v) : \A f \in Forms(Usage, h.v[i].v) : h.v[i].v.r \in Shared(Now(h.v[i].e), f)
C21_TrainedRemain == \A e \in Entities : Now(e) # <<>> => Now(e)[Len(Now(e))] = Trained[1]
C21_Vanilla == (~job.on /\ hist # <<>> /\ hist[Len(hist)].end = "done" /\ hist[Len(hist)].vanilla) =>
    LET h == hist[Len(hist)] IN \A i \in 1..Len(h.v) : Len(Now(h.v[i].e)) = 2

View == <<used, dirs, job, before, goal, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)], Len(hist)>>
Export == (~job.on /\ Len(hist) = MaxInjections) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.DUMP)
SimBegin == \E f \in { RandomElement(Asked) } : \E vanilla \in { RandomElement(BOOLEAN) } : Begin(f, vanilla)
SimCrash == RandomElement(1..30) = 1 /\ Crash
SimNext == \/ SimBegin \/ (RandomElement(1..4) = 1 /\ \E f \in { RandomElement(Asked) } : Refuse(f))
           \/ \E e \in Entities : Pick(e)
           \/ Clean \/ Make \/ Fill \/ Switch \/ Old \/ Gone \/ End \/ SimCrash
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
