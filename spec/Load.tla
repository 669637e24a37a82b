-------------------------------- MODULE Load --------------------------------
(* Loading a model directory (C18, C19, C32, C33): what can be wrong with a directory.
   D maps the paths of the files that exist to [st, d]: st is "json" (d its document), "text" (readable lines), "crf"
   (a sequence tagger), "env" (a file of an entity parser), or "bad" (cannot be read, or is not JSON).
   env maps the directories of entity parsers to the files they need; regex lists the patterns that are not plain
   texts: [p, ok, groups]. A fault says what is wrong and which names the error has to give. *)
EXTENDS Models

Supported == "0.20.0"
Langs == { "de", "en", "es", "fr", "it", "ja", "ko", "pt_pt", "pt_br" }
Builtins == { "snips/amountOfMoney", "snips/date", "snips/datetime", "snips/datePeriod", "snips/duration", "snips/number", "snips/ordinal",
              "snips/percentage", "snips/temperature", "snips/time", "snips/timePeriod", "snips/city", "snips/country", "snips/region",
              "snips/musicAlbum", "snips/musicArtist", "snips/musicTrack" }
Factories == { "is_digit", "length", "is_first", "is_last", "ngram", "shape_ngram", "prefix", "suffix", "entity_match",
               "builtin_entity_match", "word_cluster" }

F(file, why, say) == [f |-> file, why |-> why, say |-> say]
Join(p, n) == IF n = "" THEN p ELSE p \o "/" \o n
Empty == [ok |-> TRUE, v |-> Null, bad |-> {}]
\* reads a file as a record; the error names `missing` when it does not exist, `unread` when it is not JSON or not the record
File(D, p, type, missing, unread) ==
    IF p \notin DOMAIN D THEN [ok |-> FALSE, v |-> Null, bad |-> { F(p, "missing", missing) }]
    ELSE IF D[p].st # "json" THEN [ok |-> FALSE, v |-> Null, bad |-> { F(p, "unreadable", unread) }]
    ELSE LET r == Read(Schema(type), D[p].d)
         IN [ok |-> r.ok, v |-> r.v, bad |-> IF r.ok THEN {} ELSE { F(p, IF Positional(Schema(type), D[p].d) THEN "position" ELSE "fields", unread) }]
TextFault(D, p) == IF p \notin DOMAIN D THEN { F(p, "missing", {p}) }
                   ELSE IF D[p].st # "text" THEN { F(p, "unreadable", {}) } ELSE {}
EnvFaults(D, env, dir) ==
    IF dir \notin DOMAIN env THEN { F(dir, "missing", {}) }
    ELSE UNION { IF p \in DOMAIN D /\ D[p].st = "env" THEN {} ELSE { F(p, "unreadable", {}) } : p \in RangeS(env[dir]) }
Lang(p, l) == IF l.s \in Langs THEN {} ELSE { F(p, "language", {}) }
Strs(v) == IF v.k = "list" THEN { v.l[i].s : i \in 1..Len(v.l) } ELSE {}
Name(v) == IF v.k = "str" THEN { v.s } ELSE {}
Unit(D, p, kinds, missing) ==
    LET m == File(D, p \o "/metadata.json", "unit", missing, {})
    IN IF ~m.ok THEN m.bad ELSE IF Get(m.v, "unit_name").s \in kinds THEN {} ELSE { F(p, "unit", {}) }
UnitName(D, p) == Get(File(D, p \o "/metadata.json", "unit", {}, {}).v, "unit_name").s

\* ----------------------------------------------------------------- resources
Nothing == [stems |-> FALSE, gaz |-> {}, clusters |-> {}]
Res(D, r) ==                                       \* what the resources offer
    LET m == File(D, r \o "/metadata.json", "resources", {}, {})
    IN IF ~m.ok THEN Nothing
       ELSE [stems |-> Name(Get(m.v, "stems")) # {}, gaz |-> Strs(Get(m.v, "gazetteers")), clusters |-> Strs(Get(m.v, "word_clusters"))]
ResFaults(D, env, r, b, c) ==
    LET p == r \o "/metadata.json"
        m == File(D, p, "resources", {p}, {p})
        cm == File(D, c \o "/metadata.json", "custom", { c \o "/metadata.json" }, {})
    IN (IF ~m.ok THEN m.bad ELSE
          UNION { TextFault(D, r \o "/stemming/" \o n \o ".txt") : n \in Name(Get(m.v, "stems")) }
          \cup UNION { TextFault(D, r \o "/gazetteers/" \o n \o ".txt") : n \in Strs(Get(m.v, "gazetteers")) }
          \cup UNION { TextFault(D, r \o "/word_clusters/" \o n \o ".txt") : n \in Strs(Get(m.v, "word_clusters")) }
          \cup UNION { TextFault(D, r \o "/" \o n \o ".txt") : n \in Name(Get(m.v, "stop_words")) })
       \cup EnvFaults(D, env, b)
       \cup (IF ~cm.ok THEN cm.bad ELSE
               Lang(c, Get(cm.v, "language")) \cup EnvFaults(D, env, Join(c, Get(cm.v, "parser_directory").s)))

\* ----------------------------------------------------------------- features of the sequence tagger
Arg(a, n) == IF n \in Keys(a) THEN Get(a, n) ELSE [k |-> "absent"]
Natural(v) == v.k = "int" /\ SubSeq(v.txt, 1, 1) # "-"
NeedsStems(v, res) == v.k = "bool" /\ (v.b => res.stems)
SchemeArg(v) == v.k = "int" /\ v.txt \in {"0", "1", "2"}
StrList(v) == v.k = "list" /\ \A i \in 1..Len(v.l) : v.l[i].k = "str"
FactoryFaults(p, f, res) ==
    LET kind == Get(f, "factory_name").s
        a == Get(f, "args")
        arg(n) == Arg(a, n)
        Must(c, say) == IF c THEN {} ELSE { F(p, "feature", say) }
    IN CASE kind \in {"is_digit", "length", "is_first", "is_last"} -> {}
         [] kind = "ngram" -> Must(Natural(arg("n")), {}) \cup Must(NeedsStems(arg("use_stemming"), res), {})
              \cup (LET g == arg("common_words_gazetteer_name") IN
                    IF g.k = "null" THEN {} ELSE IF g.k # "str" THEN { F(p, "feature", {}) } ELSE Must(g.s \in res.gaz, {g.s}))
         [] kind = "shape_ngram" -> Must(Natural(arg("n")), {})
         [] kind = "prefix" -> Must(Natural(arg("prefix_size")), {})
         [] kind = "suffix" -> Must(Natural(arg("suffix_size")), {})
         [] kind = "entity_match" -> Must(StrList(arg("entities")), {}) \cup Must(SchemeArg(arg("tagging_scheme_code")), {})
              \cup Must(NeedsStems(arg("use_stemming"), res), {})
         [] kind = "builtin_entity_match" -> Must(SchemeArg(arg("tagging_scheme_code")), {})
              \cup (IF ~StrList(arg("entity_labels")) THEN { F(p, "feature", {}) }
                    ELSE Must(Strs(arg("entity_labels")) \subseteq Builtins, {}))
         [] kind = "word_cluster" -> (LET c == arg("cluster_name") IN
              IF c.k # "str" THEN { F(p, "feature", {}) } ELSE Must(c.s \in res.clusters, {c.s}))
         [] OTHER -> { F(p, "feature", {kind}) }

\* ----------------------------------------------------------------- units
SfFaults(D, p, res) ==
    LET f == p \o "/slot_filler.json"
        m == File(D, f, "slot_filler", {f}, {})
    IN IF ~m.ok THEN m.bad ELSE
       LET cfg == Get(m.v, "config")
           scheme == Get(cfg, "tagging_scheme").txt
           facs == Get(cfg, "feature_factory_configs").l
       IN Lang(f, Get(m.v, "language_code"))
          \cup (IF scheme \in {"0", "1", "2"} THEN {} ELSE { F(f, "scheme", {scheme}) })
          \cup UNION { LET t == Join(p, n) IN
                       (IF t \in DOMAIN D /\ D[t].st = "crf" THEN {} ELSE { F(t, "tagger", {t}) })
                       \cup UNION { FactoryFaults(f, facs[i], res) : i \in 1..Len(facs) }
                     : n \in Name(Get(m.v, "crf_model_file")) }

ScopeFaults(f, v) == LET bad == Strs(v) \ Builtins IN { F(f, "builtin", {e}) : e \in bad }
TfidfFaults(D, p, res) ==
    LET f == p \o "/vectorizer.json"
        m == File(D, f, "tfidf", {f}, {})
    IN IF ~m.ok THEN m.bad ELSE
       LET vec == Get(m.v, "vectorizer")
           cfg == Get(m.v, "config")
           idf == Len(Get(vec, "idf_diag").l)
       IN Lang(f, Get(m.v, "language_code")) \cup ScopeFaults(f, Get(m.v, "builtin_entity_scope"))
          \cup { F(f, "clusters", {n}) : n \in Name(Get(cfg, "word_clusters_name")) \ res.clusters }
          \cup (IF NeedsStems(Get(cfg, "use_stemming"), res) THEN {} ELSE { F(f, "stems", {}) })
          \cup (IF \A x \in Values(Get(vec, "vocab")) : \E i \in 0..(idf - 1) : ToString(i) = x.txt THEN {} ELSE { F(f, "vocabulary", {}) })
CoocFaults(D, p) ==
    LET f == p \o "/vectorizer.json"
        m == File(D, f, "cooccurrence", {f}, {})
    IN IF ~m.ok THEN m.bad ELSE
       LET w == Get(m.v, "word_pairs")
           n == Cardinality(Keys(w))
       IN Lang(f, Get(m.v, "language_code")) \cup ScopeFaults(f, Get(m.v, "builtin_entity_scope"))
          \cup (IF Keys(w) = { ToString(i) : i \in 0..(n - 1) } /\ Cardinality(Values(w)) = n THEN {} ELSE { F(f, "pairs", {}) })
FeatFaults(D, p, res) ==
    LET f == p \o "/featurizer.json"
        m == File(D, f, "featurizer", {f}, {})
    IN IF ~m.ok THEN m.bad ELSE
       TfidfFaults(D, Join(p, Get(m.v, "tfidf_vectorizer").s), res)
       \cup UNION { CoocFaults(D, Join(p, n)) : n \in Name(Get(m.v, "cooccurrence_vectorizer")) }
ClfFaults(D, p, res) ==
    LET f == p \o "/intent_classifier.json"
        m == File(D, f, "classifier", {f}, {})
    IN IF ~m.ok THEN m.bad ELSE
       LET ic == Get(m.v, "intercept")
           co == Get(m.v, "coeffs")
           rows == IF co.k = "list" THEN co.l ELSE <<>>
           classes == IF Len(rows) = 1 THEN 2 ELSE Len(rows)
           intents == Len(Get(m.v, "intent_list").l)
       IN UNION { FeatFaults(D, Join(p, n), res) : n \in Name(Get(m.v, "featurizer")) }
          \cup (IF ic.k # "list" \/ co.k # "list" THEN {}
                ELSE IF Len(ic.l) = Len(rows) /\ rows # <<>> /\ (\A i \in 1..Len(rows) : Len(rows[i].l) = Len(rows[1].l))
                        /\ (intents > 1 => intents = classes) THEN {} ELSE { F(f, "coefficients", {}) })

DetFaults(D, regex, p) ==
    LET f == p \o "/intent_parser.json"
        m == File(D, f, "deterministic", {f}, {})
    IN IF ~m.ok THEN m.bad ELSE
       LET known == { regex[i].p : i \in 1..Len(regex) }
           rx(s) == regex[CHOOSE i \in 1..Len(regex) : regex[i].p = s]
           pats == Get(m.v, "patterns")
           all == UNION { Strs(l) : l \in Values(pats) }
           groups == Get(m.v, "group_names_to_slot_names")
           slots == Get(m.v, "slot_names_to_entities")
       IN Lang(f, Get(m.v, "language_code"))
          \cup { F(f, "pattern", {}) : s \in { x \in all \cap known : ~rx(x).ok } }
          \cup UNION { UNION { UNION { IF g \notin Keys(groups) THEN { F(f, "group", {g}) }
                                       ELSE LET s == Get(groups, g).s IN
                                            IF s \in Keys(Get(slots, i)) THEN {} ELSE { F(f, "slot", {s, i}) }
                                     : g \in RangeS(rx(x).groups) }
                             : x \in Strs(Get(pats, i)) \cap known }
                     : i \in Keys(slots) \cap Keys(pats) }
LookupFaults(D, p) ==
    LET f == p \o "/intent_parser.json"
        m == File(D, f, "lookup", {f}, {})
    IN IF ~m.ok THEN m.bad ELSE
       LET ids(n) == { ToString(i) : i \in 0..(n - 1) }
           intents == ids(Len(Get(m.v, "intents_names").l))
           slots == ids(Len(Get(m.v, "slots_names").l))
       IN Lang(f, Get(m.v, "language_code"))
          \cup UNION { { F(f, "intent-id", {x}) : x \in {e.l[1].txt} \ intents } : e \in Values(Get(m.v, "map")) }
          \cup UNION { { F(f, "slot-id", {x}) : x \in { e.l[2].l[i].txt : i \in 1..Len(e.l[2].l) } \ slots } : e \in Values(Get(m.v, "map")) }
ProbFaults(D, p, res) ==
    LET f == p \o "/intent_parser.json"
        m == File(D, f, "probabilistic", {f}, {})
        c == p \o "/intent_classifier"
        cu == Unit(D, c, {"log_reg_intent_classifier"}, { c \o "/metadata.json" })
    IN IF ~m.ok THEN m.bad ELSE
       (IF cu # {} THEN cu ELSE ClfFaults(D, c, res))
       \cup UNION { LET s == Join(p, Get(x, "slot_filler_name").s)
                        su == Unit(D, s, {"crf_slot_filler"}, { s \o "/metadata.json" })
                    IN IF su # {} THEN su ELSE SfFaults(D, s, res)
                  : x \in RangeS(Get(m.v, "slot_fillers").l) }
ParserFaults(D, regex, p, name, res) ==
    LET u == Unit(D, p, {"deterministic_intent_parser", "lookup_intent_parser", "probabilistic_intent_parser"}, {name})
    IN IF u # {} THEN u ELSE
       CASE UnitName(D, p) = "deterministic_intent_parser" -> DetFaults(D, regex, p)
         [] UnitName(D, p) = "lookup_intent_parser" -> LookupFaults(D, p)
         [] UnitName(D, p) = "probabilistic_intent_parser" -> ProbFaults(D, p, res)

\* ----------------------------------------------------------------- the engine of the directory d
EngineFaults(D, env, regex, d) ==
    LET p == d \o "/nlu_engine.json"
        ver == File(D, p, "version", {p}, {p})
    IN IF ~ver.ok THEN ver.bad
       ELSE IF Get(ver.v, "model_version").s # Supported THEN { F(p, "version", { Get(ver.v, "model_version").s, Supported }) }
       ELSE LET m == File(D, p, "engine", {p}, {p}) IN
            IF ~m.ok THEN m.bad ELSE
            LET lang == Get(Get(m.v, "dataset_metadata"), "language_code")
                r == d \o "/resources/" \o lang.s
            IN IF lang.s \notin Langs THEN { F(p, "language", {}) }
               ELSE ResFaults(D, env, r, Join(d, Get(m.v, "builtin_entity_parser").s), Join(d, Get(m.v, "custom_entity_parser").s))
                    \cup UNION { ParserFaults(D, regex, Join(d, n), n, Res(D, r)) : n \in Strs(Get(m.v, "intent_parsers")) }
=============================================================================
