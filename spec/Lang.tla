-------------------------------- MODULE Lang --------------------------------
(* Languages (C30). A text is a sequence of characters; a language only says which of them separate words. Every part
   of a model sees the words that its declared language makes of the text. *)
EXTENDS Common

\* the words of a text as [w, s, e], when seps are the separators of the language
RECURSIVE WordsFrom(_, _, _, _)
WordsFrom(t, seps, i, open) ==
    IF i > Len(t) THEN IF open = 0 THEN <<>> ELSE <<[w |-> SubSeq(t, open, Len(t)), s |-> open - 1, e |-> Len(t)]>>
    ELSE IF t[i] \in seps
         THEN (IF open = 0 THEN <<>> ELSE <<[w |-> SubSeq(t, open, i - 1), s |-> open - 1, e |-> i - 1]>>) \o WordsFrom(t, seps, i + 1, 0)
         ELSE WordsFrom(t, seps, i + 1, IF open = 0 THEN i ELSE open)
Words(t, seps) == WordsFrom(t, seps, 1, 0)
Values(ws) == [i \in 1..Len(ws) |-> ws[i].w]
\* where a value of two words is found: two words in a row are never shared by two finds when they differ
Finds(ws, a, b) == { i \in 1..(Len(ws) - 1) : ws[i].w = a /\ ws[i + 1].w = b }
\* the words once every find is replaced by a name
RECURSIVE Named(_, _, _, _, _)
Named(ws, a, b, name, i) ==
    IF i > Len(ws) THEN <<>>
    ELSE IF i \in Finds(ws, a, b) THEN <<name>> \o Named(ws, a, b, name, i + 2)
    ELSE <<ws[i].w>> \o Named(ws, a, b, name, i + 1)
Before(vs, x, y) == \E i, j \in 1..Len(vs) : i < j /\ vs[i] = x /\ vs[j] = y
\* a text of one language told in another: the separators of both are exchanged
Told(t, s1, s2) == [i \in 1..Len(t) |-> IF t[i] = s1 THEN s2 ELSE IF t[i] = s2 THEN s1 ELSE t[i]]
=============================================================================
