---------------------------- MODULE CacheDesign ----------------------------
(* A parser behind a memory of Cap answers: any sequence of requests, some failing, some not using the memory. *)
EXTENDS Cache, Json, CSV, IOUtils
CONSTANTS Texts, Kinds, Alts, Cap, MaxSteps
VARIABLES mem, val, hist, last
vars == <<mem, val, hist, last>>
Requests == [t : Texts, k : Kinds, a : Alts]
Init == mem = <<>> /\ val = << >> /\ hist = <<>> /\ last = [r |-> [t |-> "", k |-> "", a |-> 0], ans |-> <<"none">>, called |-> FALSE]
Log(r, hit, cached) == hist' = Append(hist, [key |-> Key(r), req |-> r, hits |-> IF hit THEN 1 ELSE 0, cached |-> cached])
Room == Len(hist) < MaxSteps
Hit(r) == /\ Room /\ Holds(mem, Key(r)) /\ mem' = Touch(mem, Key(r)) /\ UNCHANGED val
          /\ last' = [r |-> r, ans |-> val[Key(r)], called |-> FALSE] /\ Log(r, TRUE, TRUE)
Miss(r) == /\ Room /\ ~Holds(mem, Key(r)) /\ ~Fails(r)
           /\ mem' = Insert(mem, Key(r), Cap) /\ val' = (Key(r) :> Fresh(r)) @@ val
           /\ last' = [r |-> r, ans |-> Fresh(r), called |-> TRUE] /\ Log(r, FALSE, TRUE)
Failure(r) == /\ Room /\ ~Holds(mem, Key(r)) /\ Fails(r) /\ UNCHANGED <<mem, val>>
              /\ last' = [r |-> r, ans |-> <<"error">>, called |-> TRUE] /\ Log(r, FALSE, TRUE)
Direct(r) == /\ Room /\ UNCHANGED <<mem, val>>
             /\ last' = [r |-> r, ans |-> Fresh(r), called |-> TRUE] /\ Log(r, FALSE, FALSE)
Next == \E r \in Requests : Hit(r) \/ Miss(r) \/ Failure(r) \/ Direct(r)
Spec == Init /\ [][Next]_vars
\* the requests made do not matter for what may come: forget them when exploring
View == <<mem, last, Len(hist)>>

C16_Fresh == last.ans # <<"none">> => last.ans = Fresh(last.r)
C16_Bound == Len(mem) <= Cap /\ Distinct(mem)
C16_Observable == Bounded(hist, Cap)
FailuresNotKept == \A i \in 1..Len(mem) : mem[i][1] # "bad"
Export == Len(hist) = MaxSteps => CSVWrite("%1$s", <<ToJson([i \in 1..Len(hist) |->
              [req |-> hist[i].req, cached |-> hist[i].cached, hit |-> hist[i].hits = 1]])>>, IOEnv.DUMP)
=============================================================================
