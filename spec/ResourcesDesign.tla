--------------------------- MODULE ResourcesDesign ---------------------------
(* Reading a resource file, one character at a time. At the end, what was gathered is what Resources defines. *)
EXTENDS Resources, Json, IOUtils, CSV
CONSTANTS Chars, MaxFile

VARIABLES file, kind, pc, pos, word, fields, width, gathered, broken
vars == <<file, kind, pc, pos, word, fields, width, gathered, broken>>
Kinds == {"words", "stems", "clusters"}
Empty == [x \in {} |-> <<>>]
Init == /\ file \in UNION { [1..n -> Chars] : n \in 0..MaxFile } /\ kind \in Kinds
        /\ pc = "read" /\ pos = 1 /\ word = <<>> /\ fields = <<>> /\ width = 0 /\ gathered = Empty /\ broken = FALSE
\* "words" are gathered as keys; 44 stands for either separator
Separator == kind # "words" /\ file[pos] = Comma
EndOfLine == file[pos] = LF \/ (kind # "words" /\ file[pos] = CR)
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
RECURSIVE PutAll(_, _, _)
PutAll(m, ks, v) == IF ks = <<>> THEN m ELSE PutAll(Put(m, Head(ks), v), Tail(ks), v)
Chop(w) == IF w # <<>> /\ w[Len(w)] = CR THEN SubSeq(w, 1, Len(w) - 1) ELSE w
Char == /\ pc = "read" /\ pos <= Len(file) /\ ~EndOfLine /\ ~Separator
        /\ word' = Append(word, file[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<file, kind, pc, fields, width, gathered, broken>>
Field == /\ pc = "read" /\ pos <= Len(file) /\ ~EndOfLine /\ Separator
         /\ fields' = Append(fields, word) /\ word' = <<>> /\ pos' = pos + 1 /\ UNCHANGED <<file, kind, pc, width, gathered, broken>>
\* a line ends: by a character, or with the file
Keep(w) ==
    LET line == Append(fields, w) IN
    IF line = << <<>> >> THEN UNCHANGED <<gathered, width, broken>>
    ELSE CASE kind = "words" -> gathered' = Put(gathered, w, <<1>>) /\ UNCHANGED <<width, broken>>
           [] kind = "stems" -> gathered' = PutAll(gathered, Tail(line), line[1]) /\ UNCHANGED <<width, broken>>
           [] kind = "clusters" -> /\ width' = Len(line) /\ broken' = (broken \/ Len(line) < 2 \/ (width # 0 /\ width # Len(line)))
                                   /\ gathered' = (IF Len(line) < 2 THEN gathered ELSE Put(gathered, line[1], line[2]))
Line == /\ pc = "read" /\ pos <= Len(file) /\ EndOfLine
        /\ Keep(IF kind = "words" THEN Chop(word) ELSE word)
        /\ word' = <<>> /\ fields' = <<>> /\ pos' = pos + 1 /\ UNCHANGED <<file, kind, pc>>
End == /\ pc = "read" /\ pos > Len(file) /\ pc' = "done" /\ Keep(word)
       /\ word' = <<>> /\ fields' = <<>> /\ UNCHANGED <<file, kind, pos>>
Next == Char \/ Field \/ Line \/ End
Spec == Init /\ [][Next]_vars

Done == pc = "done"
Tabbed == [i \in 1..Len(file) |-> IF file[i] = Comma THEN Tab ELSE file[i]]
Asked == UNION { [1..n -> Chars] : n \in 0..2 }
C26_Words == Done /\ kind = "words" => DOMAIN gathered = WordsOf(file)
C26_Stems == Done /\ kind = "stems" =>
    \A w \in Asked : Stem(file, w, w) = IF w \in DOMAIN gathered THEN gathered[w] ELSE w
C26_Clusters == Done /\ kind = "clusters" =>
    /\ broken = ~ClustersSound(Tabbed)
    /\ ~broken => \A w \in Asked : Cluster(Tabbed, w) = IF w \in DOMAIN gathered THEN gathered[w] ELSE Nothing
C26_NoBlank == (kind = "words" => <<>> \notin DOMAIN gathered) /\ (width > 0 => kind = "clusters")
Export == Done /\ kind = "words" => CSVWrite("%1$s", <<ToJson([file |-> file])>>, IOEnv.DUMP)
=============================================================================
