--------------------------- MODULE FeaturesDesign ---------------------------
(* Spreading of the values of one feature over the tokens, as the implementation does: the value of a
   token is pushed to the tokens at the declared offsets before it. C12 is stated from the receiving
   side: what the token at j bears is the value at j + offset. *)
EXTENDS Common, Json, CSV, IOUtils
CONSTANTS MaxTokens, MaxOffset, MaxOffsets
VARIABLES n, present, offsets, i, out, pc
vars == <<n, present, offsets, i, out, pc>>

Offsets == (-MaxOffset)..MaxOffset
Init == /\ n \in 0..MaxTokens
        /\ present \in SUBSET (1..n)
        /\ offsets \in UNION { [1..k -> Offsets] : k \in 0..MaxOffsets }
        /\ i = 1 /\ out = [j \in 1..n |-> <<>>] /\ pc = "run"
Here(j) == SelectSeq(offsets, LAMBDA o : i - o = j)
Push == pc = "run" /\ i <= n /\ i \in present
        /\ out' = [j \in 1..n |-> out[j] \o [k \in 1..Len(Here(j)) |-> <<Here(j)[k], i>>]]
        /\ i' = i + 1 /\ UNCHANGED <<n, present, offsets, pc>>
Skip == pc = "run" /\ i <= n /\ i \notin present /\ i' = i + 1 /\ UNCHANGED <<n, present, offsets, out, pc>>
Stop == pc = "run" /\ i > n /\ pc' = "done" /\ UNCHANGED <<n, present, offsets, i, out>>
Next == Push \/ Skip \/ Stop
Spec == Init /\ [][Next]_vars

Expected(j) == LET here == SelectSeq(offsets, LAMBDA o : j + o \in present)
               IN [k \in 1..Len(here) |-> <<here[k], j + here[k]>>]
C12_OffsetsExact == pc = "done" => \A j \in 1..n : IsPerm(out[j], Expected(j))
C12_Inside == \A j \in 1..n : \A x \in RangeS(out[j]) : x[2] \in 1..n /\ x[1] \in RangeS(offsets)
Export == pc = "done" =>
    CSVWrite("%1$s", <<ToJson([n |-> n, present |-> SetToSortSeq(present, <), offsets |-> offsets])>>, IOEnv.DUMP)
=============================================================================
