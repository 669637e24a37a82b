------------------------------ MODULE ZipDesign ------------------------------
(* Every archive of a few entries with short names: extraction one entry after the other, then loading, then removal of the
   temporary directory. *)
EXTENDS Zip, Json, IOUtils, CSV
CONSTANTS Alphabet, NameLength, MaxEntries
Names == UNION { [1..n -> Alphabet] : n \in 0..NameLength }
Archives == UNION { [1..n -> Names] : n \in 0..MaxEntries }

VARIABLES archive, at, fs, state
vars == <<archive, at, fs, state>>
Init == archive \in Archives /\ at = 1 /\ fs = Root /\ state = "extracting"
Step == /\ state = "extracting" /\ at <= Len(archive)
        /\ LET r == Put(fs, archive[at], at) IN fs' = r.fs /\ state' = (IF r.ok THEN "extracting" ELSE "failed")
        /\ at' = at + 1 /\ UNCHANGED archive
Load == /\ state = "extracting" /\ at > Len(archive)
        /\ state' = (IF HasEngine(archive) THEN "loading" ELSE "failed") /\ UNCHANGED <<archive, at, fs>>
TearDown == state \in {"loading", "failed"} /\ fs' = {} /\ state' = (IF state = "loading" THEN "loaded" ELSE "refused") /\ UNCHANGED <<archive, at>>
Next == Step \/ Load \/ TearDown
Spec == Init /\ [][Next]_vars

Contained == \A e \in fs : \A i \in 1..Len(e.p) : Plain(e.p[i]) /\ \A j \in 1..Len(e.p[i]) : ~IsSep(e.p[i][j])
IsTree == \A e \in fs : \A q \in Above(e.p) \ {e.p} : IsDirectory(fs, q)
OnePerPath == \A e, f \in fs : e.p = f.p => e = f
EngineIsThere == state = "loading" => At(fs, << EngineDir(archive) >>) # {}
GoneAtTheEnd == state \in {"loaded", "refused"} => fs = {}
SameAsFold == (state = "loading" => fs = Extract(archive).fs) /\ (state = "loading" => Extract(archive).ok)
Export == (state = "extracting" /\ at = 1) => CSVWrite("%1$s", << ToJson([names |-> archive]) >>, IOEnv.DUMP)
=============================================================================
