------------------------------- MODULE Cache -------------------------------
(* The memory of past answers in front of an entity parser.
   A request: [t: text, k: kinds, a: number of alternatives]; two requests are the same up to the letter case of
   the text. An answer is a function of the request alone; some texts make the parser fail. *)
EXTENDS Common
Fold(t) == CASE t = "X" -> "x" [] t = "Y" -> "y" [] t = "Z" -> "z" [] OTHER -> t
Key(r) == <<Fold(r.t), r.k, r.a>>
Fails(r) == Fold(r.t) = "bad"
Fresh(r) == IF Fails(r) THEN <<"error">> ELSE Key(r)

\* ---- the memory: keys, the oldest first
Touch(mem, key) == Append(SelectSeq(mem, LAMBDA x : x # key), key)
Insert(mem, key, cap) == LET m == Touch(mem, key) IN IF Len(m) > cap THEN Tail(m) ELSE m
Holds(mem, key) == \E i \in 1..Len(mem) : mem[i] = key

\* ---- what any memory of at most cap answers may do: in a run of different requests, an answer given without
\* asking the parser was held before the run, hence at most cap of them
\* hist: sequence of [key, hits, cached]; sizes count answers
DifferentKeys(hist, i, j) == \A x, y \in i..j : x # y /\ hist[x].cached /\ hist[y].cached => hist[x].key # hist[y].key
HitsOf(hist, i, j) == Sum([n \in 1..(j - i + 1) |-> IF hist[i + n - 1].cached THEN hist[i + n - 1].hits ELSE 0])
Bounded(hist, cap) == \A i, j \in 1..Len(hist) : i <= j /\ DifferentKeys(hist, i, j) => HitsOf(hist, i, j) <= cap
=============================================================================
