-------------------------------- MODULE Crf --------------------------------
(* Tags of the sequence tagger: [m |-> mark, n |-> slot name]; the outside tag is [m |-> "O", n |-> ""].
   Schemes: 0 inside/outside, 1 begin/inside/outside, 2 begin/inside/last/unit/outside. *)
EXTENDS Common

Out == [m |-> "O", n |-> ""]
IsOut(t) == t.m = "O"
Marks(scheme) == CASE scheme = 0 -> {"I"} [] scheme = 1 -> {"B", "I"} [] scheme = 2 -> {"B", "I", "L", "U"}

(* Is there a limit of slots between two neighbouring slot tags? *)
Cut(scheme, a, b) ==
    CASE scheme = 0 -> FALSE
      [] scheme = 1 -> b.m = "B"
      [] scheme = 2 -> b.m \in {"B", "U"} \/ a.m \in {"L", "U"}

(* The slots: maximal runs of slot tags without a limit inside, as [a, b, n] with a..b token indexes. *)
RunAt(scheme, tags, a, b) ==
    /\ \A i \in a..b : ~IsOut(tags[i])
    /\ \A i \in a..(b - 1) : ~Cut(scheme, tags[i], tags[i + 1])
Maximal(scheme, tags, a, b) ==
    /\ RunAt(scheme, tags, a, b)
    /\ a > 1 => IsOut(tags[a - 1]) \/ Cut(scheme, tags[a - 1], tags[a])
    /\ b < Len(tags) => IsOut(tags[b + 1]) \/ Cut(scheme, tags[b], tags[b + 1])
Slots(scheme, tags) ==
    LET runs == { r \in (1..Len(tags)) \X (1..Len(tags)) : r[1] <= r[2] /\ Maximal(scheme, tags, r[1], r[2]) }
        seq == SetToSortSeq(runs, LAMBDA x, y : x[1] < y[1])
    IN [ k \in 1..Len(seq) |-> [a |-> seq[k][1], b |-> seq[k][2], n |-> tags[seq[k][2]].n] ]

(* Probability of a sequence of labels: weights are natural numbers (the tagger holds their logarithms). *)
Replaced(labels, tags) ==             \* labels, tags: sequences of texts
    [ k \in 1..Len(tags) |-> IF tags[k] \in RangeS(labels) THEN tags[k]
                             ELSE IF "O" \in RangeS(labels) THEN "O" ELSE labels[1] ]
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
\* state[k][label]: weight of a label for the k-th token; trans[a][b]
Weight(state, trans, path) ==
    Product([ k \in 1..Len(path) |-> state[k][path[k]] * (IF k = 1 THEN 1 ELSE trans[path[k - 1]][path[k]]) ])
\* sum over all the paths, forwards
RECURSIVE Alpha(_, _, _, _)
Alpha(state, trans, L, k) ==
    IF k = 1 THEN [ l \in L |-> state[1][l] ]
    ELSE LET prev == Alpha(state, trans, L, k - 1)
         IN [ l \in L |-> state[k][l] * FoldSet(LAMBDA x, acc : acc + prev[x] * trans[x][l], 0, L) ]
Total(state, trans, L, n) ==
    IF n = 0 THEN 1 ELSE LET a == Alpha(state, trans, L, n) IN FoldSet(LAMBDA x, acc : acc + a[x], 0, L)
=============================================================================
