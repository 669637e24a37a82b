--------------------------- MODULE ThreadsDesign ---------------------------
(* Calls of several threads on one engine. A call is a list of sections; a section takes a lock, works and
   releases it: "b", "c": an entity parser (ask its memory, compute, remember), "g": the sequence tagger
   (give it the features, then decode what it was given). Texts are numbers; the answer to a text is the text. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Texts, Cap, Broken
VARIABLES pc, at, text, prog, lock, mem, fed, ans
vars == <<pc, at, text, prog, lock, mem, fed, ans>>
Programs == { <<"b", "c", "g">>, <<"c">>, <<"g", "b">> }
Locks == {"b", "c", "g"}
Init == /\ pc = [t \in Threads |-> "take"] /\ at = [t \in Threads |-> 1]
        /\ text \in [Threads -> Texts] /\ prog \in [Threads -> Programs]
        /\ lock = [k \in Locks |-> "free"] /\ mem = [k \in {"b", "c"} |-> << >>] /\ fed = 0
        /\ ans = [t \in Threads |-> <<>>]
Sec(t) == prog[t][at[t]]
Over(t) == at[t] > Len(prog[t])
Take(t) == /\ ~Over(t) /\ pc[t] = "take" /\ lock[Sec(t)] = "free"
           /\ lock' = [lock EXCEPT ![Sec(t)] = t] /\ pc' = [pc EXCEPT ![t] = "work"] /\ UNCHANGED <<at, text, prog, mem, fed, ans>>
Known(k, x) == \E i \in 1..Len(mem[k]) : mem[k][i] = x
Ask(t) == /\ ~Over(t) /\ pc[t] = "work" /\ Sec(t) \in {"b", "c"}
          /\ mem' = IF Known(Sec(t), text[t]) THEN mem
                    ELSE [mem EXCEPT ![Sec(t)] = IF Len(@) = Cap THEN Append(Tail(@), text[t]) ELSE Append(@, text[t])]
          /\ ans' = [ans EXCEPT ![t] = Append(@, text[t])] /\ pc' = [pc EXCEPT ![t] = "leave"]
          /\ UNCHANGED <<at, text, prog, lock, fed>>
Feed(t) == /\ ~Over(t) /\ pc[t] = "work" /\ Sec(t) = "g" /\ fed' = text[t] /\ pc' = [pc EXCEPT ![t] = "decode"]
           /\ lock' = IF Broken THEN [lock EXCEPT !["g"] = "free"] ELSE lock
           /\ UNCHANGED <<at, text, prog, mem, ans>>
Decode(t) == /\ ~Over(t) /\ pc[t] = "decode" /\ ans' = [ans EXCEPT ![t] = Append(@, fed)] /\ pc' = [pc EXCEPT ![t] = "leave"]
             /\ UNCHANGED <<at, text, prog, lock, mem, fed>>
Leave(t) == /\ ~Over(t) /\ pc[t] = "leave" /\ lock' = IF lock[Sec(t)] = t THEN [lock EXCEPT ![Sec(t)] = "free"] ELSE lock
            /\ at' = [at EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "take"] /\ UNCHANGED <<text, prog, mem, fed, ans>>
Done == (\A t \in Threads : Over(t)) /\ UNCHANGED vars
Step == \E t \in Threads : Take(t) \/ Ask(t) \/ Feed(t) \/ Decode(t) \/ Leave(t)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Take(t) \/ Ask(t) \/ Feed(t) \/ Decode(t) \/ Leave(t))
\* each call answers what it answers alone
C17_Alone == \A t \in Threads : \A i \in 1..Len(ans[t]) : ans[t][i] = text[t]
C17_Exclusion == \A t, u \in Threads : t # u /\ ~Over(t) /\ ~Over(u) /\ pc[t] \in {"work", "decode"} /\ pc[u] \in {"work", "decode"}
                     => Sec(t) # Sec(u)
C17_AllEnd == <>(\A t \in Threads : Over(t))
=============================================================================
