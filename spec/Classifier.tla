----------------------------- MODULE Classifier -----------------------------
(* The scores of the intents by logistic regression (C24). Scores are in millionths; features in hundred thousandths,
   coefficients in hundredths, so that their products are in ten millionths. *)
EXTENDS Common

\* the logistic function of k / 16, k from 0 to 256, in millionths
Table == <<
    500000, 515620, 531209, 546738, 562177, 577495, 592667, 607663, 622459, 637031, 651355, 665411,
    679179, 692642, 705785, 718594, 731059, 743168, 754915, 766294, 777300, 787931, 798187, 808067,
    817574, 826712, 835484, 843895, 851953, 859664, 867036, 874077, 880797, 887205, 893309, 899121,
    904651, 909907, 914901, 919643, 924142, 928409, 932453, 936285, 939913, 943348, 946597, 949669,
    952574, 955319, 957912, 960361, 962673, 964855, 966914, 968856, 970688, 972415, 974043, 975577,
    977023, 978385, 979668, 980876, 982014, 983085, 984094, 985043, 985936, 986777, 987568, 988313,
    989013, 989672, 990292, 990874, 991423, 991938, 992423, 992879, 993307, 993710, 994089, 994445,
    994780, 995095, 995390, 995668, 995930, 996176, 996406, 996623, 996827, 997019, 997199, 997368,
    997527, 997677, 997817, 997949, 998073, 998190, 998299, 998402, 998499, 998590, 998675, 998755,
    998830, 998901, 998968, 999030, 999089, 999144, 999196, 999245, 999290, 999333, 999374, 999412,
    999447, 999481, 999512, 999542, 999569, 999596, 999620, 999643, 999665, 999685, 999704, 999722,
    999739, 999755, 999769, 999783, 999797, 999809, 999820, 999831, 999842, 999851, 999860, 999869,
    999877, 999884, 999891, 999898, 999904, 999910, 999915, 999920, 999925, 999930, 999934, 999938,
    999942, 999945, 999949, 999952, 999955, 999957, 999960, 999962, 999965, 999967, 999969, 999971,
    999972, 999974, 999976, 999977, 999979, 999980, 999981, 999982, 999983, 999984, 999985, 999986,
    999987, 999988, 999989, 999989, 999990, 999990, 999991, 999992, 999992, 999993, 999993, 999993,
    999994, 999994, 999995, 999995, 999995, 999996, 999996, 999996, 999996, 999996, 999997, 999997,
    999997, 999997, 999997, 999998, 999998, 999998, 999998, 999998, 999998, 999998, 999998, 999999,
    999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999,
    999999, 999999, 999999, 999999, 999999, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
    1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
    1000000, 1000000, 1000000, 1000000, 1000000
>>
Step == 625000                                     \* 1 / 16 in ten millionths
\* linear interpolation: its error is below 50 millionths
LogisticPos(x) ==
    LET k == x \div Step r == x % Step
    IN IF k >= 256 THEN 1000000 ELSE Table[k + 1] + ((Table[k + 2] - Table[k + 1]) * (r \div 100)) \div (Step \div 100)
Logistic(x) == IF x >= 0 THEN LogisticPos(x) ELSE 1000000 - LogisticPos(0 - x)

Linear(b, row, feats) == b * 100000 + Sum([i \in 1..Len(row) |-> row[i] * feats[i]])
\* one score per class: one row of coefficients stands for two classes
Scores(intercept, coeffs, feats) ==
    LET p == [c \in 1..Len(coeffs) |-> Logistic(Linear(intercept[c], coeffs[c], feats))]
    IN IF Len(coeffs) = 1 THEN << 1000000 - p[1], p[1] >> ELSE p
\* a classifier that cannot score: there is no intent, with certainty
Certain(intents) == [i \in 1..Len(intents) |-> IF intents[i] = None THEN 1000000 ELSE 0]
\* without any intent there is no intent
Classes(m) == IF m.intents = <<>> THEN <<None>> ELSE m.intents
Expected(m, text, feats) ==
    IF Len(m.intents) <= 1 THEN <<1000000>>
    ELSE IF text = "" \/ ~m.featurizer \/ m.coeffs = <<>> THEN Certain(m.intents)
    ELSE Scores(m.intercept, m.coeffs, feats)

\* got: the listing <<[n, s]>>; want: the score of each intent of the model
Tol == 400
Sorted(got) == \A i \in 1..(Len(got) - 1) : got[i].s >= got[i + 1].s
Listed(intents, want, got) ==
    /\ IsPerm([i \in 1..Len(got) |-> got[i].n], intents)
    /\ \A i \in 1..Len(got) : \E k \in 1..Len(intents) : intents[k] = got[i].n /\ Near(got[i].s, want[k], Tol)
\* the best of the allowed intents (the absence of intent always is); the listing gives the scores
Best(listing, allowed, all, got) ==
    LET ok == { i \in 1..Len(listing) : all \/ listing[i].n = None \/ listing[i].n \in allowed }
    IN IF ok = {} THEN got.n = None /\ got.s = 1000000
       ELSE \E i \in ok : got = listing[i] /\ \A j \in ok : listing[j].s <= listing[i].s
=============================================================================
