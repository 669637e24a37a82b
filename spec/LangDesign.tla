----------------------------- MODULE LangDesign -----------------------------
(* The parts of a model look at a text in any order, each with the language that it was given. *)
EXTENDS Lang, Json, IOUtils, CSV
CONSTANTS MaxLen, Stray               \* Stray: a part that is given another language, or "nobody"
Parts == {"rules", "lookup", "features", "pairs", "tagger", "entities", "injection"}
Alphabet == {"a", "b", " ", "1", "2"}  \* "1" separates words in the language of the model, "2" in another one
Seps(l) == {" ", l}
VARIABLES text, seen
vars == <<text, seen>>
Texts == UNION { [1..n -> Alphabet] : n \in 0..MaxLen }
Init == text \in Texts /\ seen = <<>>
Look(p) == /\ p \notin DOMAIN seen
           /\ seen' = (p :> Values(Words(text, Seps(IF p = Stray THEN "2" ELSE "1")))) @@ seen /\ UNCHANGED text
InTurn == <<"rules", "lookup", "features", "pairs", "tagger", "entities", "injection">>
Next == Cardinality(DOMAIN seen) < Len(InTurn) /\ Look(InTurn[Cardinality(DOMAIN seen) + 1])
Spec == Init /\ [][Next]_vars
\* all the parts see the words of the language
C30_OneLanguage == \A p \in DOMAIN seen : seen[p] = Values(Words(text, Seps("1")))
\* the words of the same text told in the other language are the same words told in it
C30_NothingElse == LET t == Told(text, "1", "2") IN
    Values(Words(t, Seps("2"))) = [i \in 1..Len(Words(text, Seps("1"))) |-> Told(Words(text, Seps("1"))[i].w, "1", "2")]
C30_Cover == LET ws == Words(text, Seps("1")) IN
    /\ \A i \in 1..Len(ws) : ws[i].w = Sub(text, ws[i].s, ws[i].e) /\ Len(ws[i].w) > 0
    /\ \A k \in 1..Len(text) : text[k] \in Seps("1") \/ \E i \in 1..Len(ws) : ws[i].s < k /\ k <= ws[i].e
Export == DOMAIN seen = {} => CSVWrite("%1$s", <<ToJson(text)>>, IOEnv.DUMP)
=============================================================================
