--------------------------------- MODULE Zip ---------------------------------
(* Extracting an archive (C20): what the directory holds afterwards. A name is a sequence of character codes. *)
EXTENDS Common

\* the names of the directories and of the file a name stands for: what follows a NUL is dropped, / and \ separate,
\* and nothing but plain names is kept
Cut(name) == LET z == { i \in 1..Len(name) : name[i] = 0 } IN IF z = {} THEN name ELSE SubSeq(name, 1, MinOf(z) - 1)
IsSep(c) == c = 47 \/ c = 92
RECURSIVE Split(_)
Split(s) == LET at == { i \in 1..Len(s) : IsSep(s[i]) }
            IN IF at = {} THEN << s >> ELSE << SubSeq(s, 1, MinOf(at) - 1) >> \o Split(SubSeq(s, MinOf(at) + 1, Len(s)))
Plain(c) == c \notin { <<>>, <<46>>, <<46, 46>> }
Path(name) == SelectSeq(Split(Cut(name)), Plain)
IsDir(name) == name # <<>> /\ IsSep(name[Len(name)])

\* fs: the set of [p, d]: a path and "dir" or the number of the entry the file comes from
Root == { [p |-> <<>>, d |-> "dir"] }
At(fs, p) == { e \in fs : e.p = p }
IsFile(fs, p) == \E e \in At(fs, p) : e.d # "dir"
IsDirectory(fs, p) == \E e \in At(fs, p) : e.d = "dir"
Above(p) == { SubSeq(p, 1, i) : i \in 0..Len(p) }                \* p and the directories it lies in
Blocked(fs, p) == \E q \in Above(p) : IsFile(fs, q)
MakeDirs(fs, p) == fs \cup { [p |-> q, d |-> "dir"] : q \in Above(p) }

Parent(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)
\* one entry: [ok, fs]
Put(fs, name, id) ==
    LET p == Path(name) IN
    IF IsDir(name) THEN (IF Blocked(fs, p) THEN [ok |-> FALSE, fs |-> fs] ELSE [ok |-> TRUE, fs |-> MakeDirs(fs, p)])
    ELSE IF Blocked(fs, Parent(p)) \/ IsDirectory(fs, p) \/ p = <<>> THEN [ok |-> FALSE, fs |-> fs]
    ELSE [ok |-> TRUE, fs |-> { e \in MakeDirs(fs, Parent(p)) : e.p # p } \cup { [p |-> p, d |-> ToString(id)] }]

RECURSIVE PutAll(_, _, _)
PutAll(fs, names, i) == IF i > Len(names) THEN [ok |-> TRUE, fs |-> fs]
                        ELSE LET r == Put(fs, names[i], i) IN IF r.ok THEN PutAll(r.fs, names, i + 1) ELSE r
Extract(names) == PutAll(Root, names, 1)
\* the directory of the engine, if the archive has one
HasEngine(names) == names # <<>> /\ Path(names[1]) # <<>>
EngineDir(names) == Path(names[1])[1]
=============================================================================
