----------------------------- MODULE LoadDesign -----------------------------
(* Loading as a machine: the files of an engine are read one after the other, in the order in which they are named by
   one another. Whatever that order, the engine is loaded only if no file is damaged, the failure is due to one of the
   damaged files, and a model of another version is refused for this reason alone. The version comes first; the order of the
   other files is not prescribed (Allowed), the machine takes the one of the library and refines it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, SequencesExt, FiniteSetsExt
CONSTANTS MaxDamages

\* the files of a complete engine: name and the file that names it
Order == << <<"version", "none">>, <<"engine", "version">>, <<"resmeta", "engine">>, <<"stems", "resmeta">>, <<"gaz", "resmeta">>,
            <<"clusters", "resmeta">>, <<"stops", "resmeta">>, <<"builtin", "engine">>, <<"builtingaz", "builtin">>,
            <<"custommeta", "engine">>, <<"customparser", "custommeta">>,
            <<"detmeta", "engine">>, <<"det", "detmeta">>, <<"lookmeta", "engine">>, <<"look", "lookmeta">>,
            <<"probmeta", "engine">>, <<"prob", "probmeta">>, <<"clfmeta", "prob">>, <<"clf", "clfmeta">>, <<"feat", "clf">>,
            <<"tfidf", "feat">>, <<"cooc", "feat">>, <<"sfmeta", "prob">>, <<"sf", "sfmeta">>, <<"crf", "sf">> >>
Names == { Order[i][1] : i \in 1..Len(Order) }
Parent(f) == (CHOOSE i \in 1..Len(Order) : Order[i][1] = f)
Above(f) == Order[Parent(f)][2]
RECURSIVE Ancestors(_)
Ancestors(f) == IF Above(f) = "none" THEN {} ELSE {Above(f)} \cup Ancestors(Above(f))
Damages == {"missing", "bad", "fields"}
Kinds(f) == CASE f = "version" -> {"other"}                         \* the version written in nlu_engine.json is another one
              [] f = "engine" -> Damages
              [] f \in {"stems", "gaz", "stops"} -> {"missing"}
              [] f = "clusters" -> {"missing", "bad"}
              [] f \in {"crf", "builtin", "builtingaz", "customparser"} -> {"missing", "bad"}
              [] OTHER -> Damages

\* the damages of the files d: set of <<file, damage>>
First(d) == { x \in d : \A y \in d : y[1] \notin Ancestors(x[1]) }
\* nlu_engine.json itself holds the version: when it cannot be read there is no version
NoVersion(d) == \E x \in d : x[1] = "engine" /\ x[2] \in {"missing", "bad"}
Allowed(d) == IF d = {} THEN {"loaded"}
              ELSE IF (\E x \in d : x[1] = "version") /\ ~NoVersion(d) THEN {"version"}
              ELSE { x[1] : x \in First({ y \in d : y[1] # "version" }) }

Chosen == { d \in UNION { kSubset(n, UNION { {f} \X Kinds(f) : f \in Names }) : n \in 0..MaxDamages } :
              \A x, y \in d : x[1] = y[1] => x = y }
VARIABLES damage, at, outcome
vars == <<damage, at, outcome>>
Init == damage \in Chosen /\ at = 1 /\ outcome = "reading"
Hit(f) == { x \in damage : x[1] = f }
ReadVersion == /\ outcome = "reading" /\ at = 1
               /\ IF NoVersion(damage) THEN outcome' = "engine"
                  ELSE IF Hit("version") # {} THEN outcome' = "version" ELSE outcome' = outcome
               /\ at' = 2 /\ UNCHANGED damage
ReadFile == /\ outcome = "reading" /\ at > 1 /\ at <= Len(Order)
            /\ outcome' = IF Hit(Order[at][1]) # {} THEN Order[at][1] ELSE outcome
            /\ at' = at + 1 /\ UNCHANGED damage
Finish == /\ outcome = "reading" /\ at > Len(Order) /\ outcome' = "loaded" /\ UNCHANGED <<damage, at>>
Next == ReadVersion \/ ReadFile \/ Finish
Spec == Init /\ [][Next]_vars

Sound == outcome = "loaded" => damage = {}
Refines == outcome # "reading" => outcome \in Allowed(damage)
VersionFirst == outcome = "version" => at = 2
FailsOnADamage == outcome \notin {"reading", "loaded"} => \E x \in damage : x[1] = outcome
Export == (outcome = "reading" /\ at = 1) =>
    CSVWrite("%1$s", << ToJson([damage |-> SetToSeq(damage), allowed |-> SetToSeq(Allowed(damage))]) >>, IOEnv.DUMP)
=============================================================================
