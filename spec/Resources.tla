------------------------------ MODULE Resources ------------------------------
(* What the resource files of a language say (C26). A file is the list of its character codes; a byte that is not text
   is the code 0 - 1. *)
EXTENDS Common

LF == 10  CR == 13  Comma == 44  Tab == 9
Text(f) == \A i \in 1..Len(f) : f[i] >= 0

\* what is between the characters of ends
Pieces(f, ends) ==
    LET cuts == <<0>> \o SetToSortSeq({ i \in 1..Len(f) : f[i] \in ends }, LAMBDA a, b : a < b) \o << Len(f) + 1 >>
    IN [k \in 1..(Len(cuts) - 1) |-> SubSeq(f, cuts[k] + 1, cuts[k + 1] - 1)]

\* ---- files of words: one per line, which ends with LF or CR LF
Chopped(w) == IF w # <<>> /\ w[Len(w)] = CR THEN SubSeq(w, 1, Len(w) - 1) ELSE w
Lines(f) == LET p == Pieces(f, {LF}) IN [k \in 1..Len(p) |-> IF k < Len(p) THEN Chopped(p[k]) ELSE p[k]]
\* the words of a gazetteer, or the stop words
WordsOf(f) == RangeS(Lines(f)) \ { <<>> }

\* ---- files of records: fields between separators, one record per line that is not empty, lines end with LF or CR
Records(f, sep) ==
    LET ls == SelectSeq(Pieces(f, {LF, CR}), LAMBDA w : w # <<>>)
    IN [k \in 1..Len(ls) |-> Pieces(ls[k], {sep})]

Nothing == <<0 - 2>>                   \* no stem, no cluster
\* the stem of a word, from the last line that lists it
StemIn(rs, w) ==
    LET ks == { k \in 1..Len(rs) : \E j \in 2..Len(rs[k]) : rs[k][j] = w }
    IN IF ks = {} THEN Nothing ELSE rs[MaxOf(ks)][1]
Stem(f, w, norm) == LET st == StemIn(Records(f, Comma), norm) IN IF st = Nothing THEN w ELSE st
\* clusters: a word and its cluster on each line
ClustersSound(f) ==
    LET rs == Records(f, Tab)
    IN Text(f) /\ \A k \in 1..Len(rs) : Len(rs[k]) >= 2 /\ Len(rs[k]) = Len(rs[1])
Cluster(f, w) ==
    LET rs == Records(f, Tab)
        ks == { k \in 1..Len(rs) : rs[k][1] = w }
    IN IF ks = {} THEN Nothing ELSE rs[MaxOf(ks)][2]
=============================================================================
