-------------------------- MODULE ClassifierDesign --------------------------
(* The classification of a text, one word at a time: counts and pairs are gathered in one pass over the words, then scored
   and sorted. At the end they are those of the definitions in Featurizer and Classifier. *)
EXTENDS Featurizer, Json, IOUtils, CSV
C == INSTANCE Classifier
CONSTANTS Letters, MaxText, Windows

VARIABLES text, cfg, pc, i, counts, past, pairs, out
vars == <<text, cfg, pc, i, counts, past, pairs, out>>
Rank(w) == CASE w = "a" -> 1 [] w = "b" -> 2 [] w = "u" -> 3 [] w = "z" -> 4
Texts == UNION { [1..n -> Letters] : n \in 0..MaxText }
\* 9 (a configuration file cannot hold negative numbers): no window
Cfgs == [window : { IF w = 9 THEN -1 ELSE w : w \in Windows }, keep : BOOLEAN, filter : BOOLEAN, one : BOOLEAN]
Vocab == [w \in {"a", "b"} |-> IF w = "a" THEN 0 ELSE 1]
Idf == <<100, 200>>
AllPairs == << <<"a", "b">>, <<"b", "a">>, <<"a", "a">> >>
Ev(t, c) == [toks |-> [k \in 1..Len(t) |-> [s |-> 2 * k, e |-> 2 * k + 1, v |-> t[k], n |-> t[k], stem |-> t[k], low |-> t[k], r |-> Rank(t[k])]],
             stemming |-> FALSE, builtins |-> <<>>, customs |-> <<>>, names |-> [x \in {} |-> ""], clusters |-> [x \in {} |-> ""],
             vocab |-> Vocab, idf |-> Idf, ents |-> <<>>, filter |-> c.filter, stops |-> <<"z">>, unknown |-> "u",
             window |-> c.window, keep |-> c.keep, pairs |-> AllPairs]
Init == /\ text \in Texts /\ cfg \in Cfgs /\ pc = "read" /\ i = 1 /\ counts = <<0, 0>> /\ past = <<>> /\ pairs = {} /\ out = <<>>
SimInit == /\ text = <<>> /\ cfg = [window |-> -1, keep |-> TRUE, filter |-> TRUE, one |-> TRUE] /\ pc = "choose" /\ i = 1
           /\ counts = <<0, 0>> /\ past = <<>> /\ pairs = {} /\ out = <<>>
SimChoose == /\ pc = "choose" /\ pc' = "read" /\ cfg' = RandomElement(Cfgs)
             /\ text' = LET n == RandomElement(0..MaxText) IN [k \in 1..n |-> RandomElement(Letters)]
             /\ UNCHANGED <<i, counts, past, pairs, out>>
Aside(w) == w = "u" \/ (cfg.filter /\ w = "z")
Window == IF cfg.window < 0 THEN MaxText ELSE cfg.window
Read == /\ pc = "read" /\ i <= Len(text) /\ i' = i + 1
        /\ counts' = [k \in 1..2 |-> counts[k] + IF text[i] \in DOMAIN Vocab /\ Vocab[text[i]] = k - 1 THEN Idf[k] ELSE 0]
        /\ (IF Aside(text[i]) THEN UNCHANGED <<past, pairs>>
            ELSE /\ past' = (IF Len(past) >= Window THEN (IF Window = 0 THEN <<>> ELSE Append(Tail(past), text[i])) ELSE Append(past, text[i]))
                 /\ pairs' = pairs \cup { IF cfg.keep \/ Rank(w) < Rank(text[i]) THEN <<w, text[i]>> ELSE <<text[i], w>> : w \in RangeS(past) })
        /\ UNCHANGED <<text, cfg, pc, out>>
Ready == /\ pc = "read" /\ i > Len(text) /\ pc' = "score" /\ UNCHANGED <<text, cfg, i, counts, past, pairs, out>>
Rows == IF cfg.one THEN << <<150, -200, 100, 50, -75>> >> ELSE << <<100, 0, 25, -50, 0>>, <<0, 100, 0, 0, 300>>, <<-100, -100, 50, 10, 0>> >>
B == IF cfg.one THEN <<10>> ELSE <<0, -50, 50>>
Intents == IF cfg.one THEN <<"i", None>> ELSE <<"i", "j", None>>
Feats == Unit(counts) \o [k \in 1..3 |-> IF AllPairs[k] \in pairs THEN 100000 ELSE 0]
Score == /\ pc = "score" /\ pc' = "sort"
         /\ LET p == IF text = <<>> THEN C!Certain(Intents) ELSE C!Scores(B, Rows, Feats)
            IN out' = [k \in 1..Len(Intents) |-> [n |-> Intents[k], s |-> p[k]]]
         /\ UNCHANGED <<text, cfg, i, counts, past, pairs>>
Swap == /\ pc = "sort" /\ \E k \in 1..(Len(out) - 1) :
              /\ out[k].s < out[k + 1].s
              /\ out' = [out EXCEPT ![k] = out[k + 1], ![k + 1] = out[k]]
        /\ UNCHANGED <<text, cfg, pc, i, counts, past, pairs>>
Answer == /\ pc = "sort" /\ C!Sorted(out) /\ pc' = "done" /\ UNCHANGED <<text, cfg, i, counts, past, pairs, out>>
Next == Read \/ Ready \/ Score \/ Swap \/ Answer
Spec == Init /\ [][Next]_vars
SimSpec == SimInit /\ [][SimChoose \/ Next]_vars

Done == pc = "done"
C25_Counts == pc # "choose" /\ pc # "read" => counts = Weights(Ev(text, cfg))
C25_Pairs == pc # "choose" /\ pc # "read" => pairs = Pairs(Ev(text, cfg))
C25_UnknownWordsIgnored == Done =>
    LET known == SelectSeq(text, LAMBDA w : w # "u") IN Weights(Ev(known, cfg)) = counts /\ Pairs(Ev(known, cfg)) = pairs
C25_UnitLength == pc = "done" => LET u == Unit(counts) n == Sum([k \in 1..2 |-> (u[k] \div 100) * (u[k] \div 100)])
                                 IN (counts = <<0, 0>> /\ u = <<0, 0>>) \/ Near(n, 1000000, 4000)
C25_LengthFixed == Len(Feats) = 5
C24_Listed == Done => C!Listed(Intents, IF text = <<>> THEN C!Certain(Intents) ELSE C!Scores(B, Rows, Feats), out)
C24_Complement == (Done /\ cfg.one) => out[1].s + out[2].s = 1000000
C24_Best == Done => C!Best(out, {}, TRUE, out[1]) /\ C!Best(out, {"j"}, FALSE, SelectSeq(out, LAMBDA x : x.n \in {"j", None})[1])
\* the table is the logistic function: half at 0, symmetrical, growing, with L' = L(1 - L)
TableIsLogistic ==
    /\ C!Logistic(0) = 500000
    /\ \A k \in 1..256 : C!Table[k] <= C!Table[k + 1]
    /\ \A k \in 2..256 : LET l == C!Table[k] \div 100
                             d == (C!Table[k + 1] - C!Table[k - 1]) \div 100     \* over 1 / 8
                         IN Near(d * 8, (l * (10000 - l)) \div 10000, 20)
    /\ \A x \in {0, 1, 624999, 625000, 12345678, 160000000} : C!Logistic(x) + C!Logistic(0 - x) = 1000000
ASSUME TableIsLogistic
Export == Done => CSVWrite("%1$s", <<ToJson([text |-> text, cfg |-> cfg])>>, IOEnv.DUMP)
=============================================================================
