------------------------------- MODULE Models -------------------------------
(* The records of the model files, and how a JSON document is read as one of them (C32).
   A document is a tree: [k |-> "null"], [k |-> "bool", b], [k |-> "int", txt, f, n, big], [k |-> "flt", txt, f],
   [k |-> "str", s], [k |-> "list", l], [k |-> "obj", f |-> << [n, i, x, big, v] >>], where, for a number, f is its text
   as a 32-bit float, n its value when it is not big, and, for a field, i tells whether its name is an integer, x. *)
EXTENDS Common

\* ----------------------------------------------------------------- schemas
Str == [t |-> "str"]
Bool == [t |-> "bool"]
Whole(lo, hi, big) == [t |-> "int", lo |-> lo, hi |-> hi, big |-> big]    \* big: numbers of more than 31 bits are allowed
U8 == Whole(0, 255, FALSE)
I32 == Whole(-2147483647, 2147483647, FALSE)
Usize == Whole(0, 2147483647, TRUE)
F32 == [t |-> "f32"]
AnyS == [t |-> "any"]
Opt(s) == [t |-> "opt", of |-> s]
List(s) == [t |-> "list", of |-> s]
Tuple(ss) == [t |-> "tuple", of |-> ss]
Map(s) == [t |-> "map", key |-> Str, of |-> s]
IntMap(key, s) == [t |-> "map", key |-> key, of |-> s]
Rec(fields) == [t |-> "rec", fields |-> fields]
Req(n, s) == [n |-> n, s |-> s, absent |-> "error", def |-> [k |-> "null"]]
Dft(n, s, d) == [n |-> n, s |-> s, absent |-> "default", def |-> d]
May(n, s) == Dft(n, Opt(s), [k |-> "null"])

Units == { "deterministic_intent_parser", "lookup_intent_parser", "probabilistic_intent_parser", "crf_slot_filler",
           "log_reg_intent_classifier" }
Null == [k |-> "null"]
EmptyObj == [k |-> "obj", f |-> {}]
False == [k |-> "bool", b |-> FALSE]

EntityS == Rec(<< Req("automatically_extensible", Bool) >>)
DatasetS == Rec(<< Req("language_code", Str), Req("entities", Map(EntityS)), Req("slot_name_mappings", Map(Map(Str))) >>)
ParserConfigS == Rec(<< Dft("ignore_stop_words", Bool, False) >>)
ScopeS == Rec(<< Req("intent_group", List(Str)),
                 Req("entity_scope", Rec(<< Req("builtin", List(Str)), Req("custom", List(Str)) >>)) >>)
FactoryS == Rec(<< Req("factory_name", Str), Req("offsets", List(I32)), Req("args", Map(AnyS)) >>)
Schema(type) ==
    CASE type = "version" -> Rec(<< Req("model_version", Str) >>)
      [] type = "engine" -> Rec(<< Req("dataset_metadata", DatasetS), Req("intent_parsers", List(Str)), Req("model_version", Str),
              Req("training_package_version", Str), Req("builtin_entity_parser", Str), Req("custom_entity_parser", Str) >>)
      [] type = "dataset" -> DatasetS
      [] type = "entity" -> EntityS
      [] type = "unit" -> [t |-> "unit"]
      [] type = "classifier" -> Rec(<< May("featurizer", Str), May("intercept", List(F32)), May("coeffs", List(List(F32))),
              Req("intent_list", List(Opt(Str))) >>)
      [] type = "featurizer" -> Rec(<< Req("language_code", Str), Req("tfidf_vectorizer", Str), May("cooccurrence_vectorizer", Str) >>)
      [] type = "tfidf" -> Rec(<< Req("language_code", Str), Req("builtin_entity_scope", List(Str)),
              Req("vectorizer", Rec(<< Req("idf_diag", List(F32)), Req("vocab", Map(Usize)) >>)),
              Req("config", Rec(<< Req("use_stemming", Bool), May("word_clusters_name", Str) >>)) >>)
      [] type = "cooccurrence" -> Rec(<< Req("language_code", Str), Req("builtin_entity_scope", List(Str)),
              Req("word_pairs", IntMap(Usize, Tuple(<<Str, Str>>))),
              Req("config", Rec(<< May("window_size", Usize), Req("filter_stop_words", Bool), Req("keep_order", Bool),
                                   May("unknown_words_replacement_string", Str) >>)) >>)
      [] type = "deterministic" -> Rec(<< Req("language_code", Str), Req("patterns", Map(List(Str))),
              Req("group_names_to_slot_names", Map(Str)), Req("slot_names_to_entities", Map(Map(Str))),
              Dft("stop_words_whitelist", Map(List(Str)), EmptyObj), Req("config", ParserConfigS) >>)
      [] type = "lookup" -> Rec(<< Req("language_code", Str), Req("slots_names", List(Str)), Req("intents_names", List(Str)),
              Req("map", IntMap(I32, Tuple(<<I32, List(I32)>>))), Req("entity_scopes", List(ScopeS)),
              Req("stop_words_whitelist", Map(List(Str))), Req("config", ParserConfigS) >>)
      [] type = "probabilistic" -> Rec(<< Req("slot_fillers",
              List(Rec(<< Req("intent", Str), Req("slot_filler_name", Str) >>))) >>)
      [] type = "slot_filler" -> Rec(<< Req("language_code", Str), Req("intent", Str), Req("slot_name_mapping", Map(Str)),
              May("crf_model_file", Str),
              Req("config", Rec(<< Req("tagging_scheme", U8), Req("feature_factory_configs", List(FactoryS)) >>)) >>)
      \* read by the library only when it loads a directory
      [] type = "resources" -> Rec(<< Req("language", Str), May("gazetteers", List(Str)), May("word_clusters", List(Str)),
              May("stems", Str), May("stop_words", Str) >>)
      [] type = "custom" -> Rec(<< Req("language", Str), Req("parser_directory", Str), Req("parser_usage", Whole(0, 2, FALSE)) >>)
Types == { "version", "engine", "dataset", "entity", "unit", "classifier", "featurizer", "tfidf", "cooccurrence", "deterministic",
           "lookup", "probabilistic", "slot_filler" }

\* ----------------------------------------------------------------- reading
Good(v) == [ok |-> TRUE, v |-> v]
Wrong == [ok |-> FALSE, v |-> Null]
InRange(s, n, big) == IF big THEN s.big /\ n >= s.lo ELSE s.lo <= n /\ n <= s.hi
KeyOk(key, f) == IF key.t = "str" THEN TRUE ELSE f.i /\ InRange(key, f.x, f.big)
Named(d, n) == { i \in 1..Len(d.f) : d.f[i].n = n }

RECURSIVE Plain(_)
Plain(d) == CASE d.k = "list" -> [k |-> "list", l |-> [i \in 1..Len(d.l) |-> Plain(d.l[i])]]
              [] d.k = "obj" -> [k |-> "obj", f |-> { <<d.f[i].n, Plain(d.f[i].v)>> : i \in { j \in 1..Len(d.f) : j = MaxOf(Named(d, d.f[j].n)) } }]
              [] d.k \in {"int", "flt"} -> [k |-> d.k, txt |-> d.txt]
              [] OTHER -> d

RECURSIVE Read(_, _)
ReadField(f, d) ==
    LET at == Named(d, f.n) IN
    IF at = {} THEN (IF f.absent = "default" THEN Good(f.def) ELSE Wrong)
    ELSE IF Cardinality(at) > 1 THEN Wrong
    ELSE Read(f.s, d.f[MaxOf(at)].v)
Read(s, d) ==
    CASE s.t = "any" -> Good(Plain(d))
      [] s.t = "str" -> IF d.k = "str" THEN Good(d) ELSE Wrong
      [] s.t = "bool" -> IF d.k = "bool" THEN Good(d) ELSE Wrong
      [] s.t = "int" -> IF d.k = "int" /\ InRange(s, d.n, d.big) THEN Good(Plain(d)) ELSE Wrong
      [] s.t = "f32" -> IF d.k \in {"int", "flt"} THEN Good([k |-> "flt", txt |-> d.f]) ELSE Wrong
      [] s.t = "opt" -> IF d.k = "null" THEN Good(Null) ELSE Read(s.of, d)
      [] s.t = "list" -> IF d.k # "list" THEN Wrong ELSE
            LET all == [i \in 1..Len(d.l) |-> Read(s.of, d.l[i])]
            IN IF \A i \in 1..Len(d.l) : all[i].ok THEN Good([k |-> "list", l |-> [i \in 1..Len(d.l) |-> all[i].v]]) ELSE Wrong
      [] s.t = "tuple" -> IF d.k # "list" THEN Wrong ELSE IF Len(d.l) # Len(s.of) THEN Wrong ELSE
            LET all == [i \in 1..Len(d.l) |-> Read(s.of[i], d.l[i])]
            IN IF \A i \in 1..Len(d.l) : all[i].ok THEN Good([k |-> "list", l |-> [i \in 1..Len(d.l) |-> all[i].v]]) ELSE Wrong
      [] s.t = "map" -> IF d.k # "obj" THEN Wrong ELSE
            LET all == [i \in 1..Len(d.f) |-> Read(s.of, d.f[i].v)]
                last == { i \in 1..Len(d.f) : i = MaxOf(Named(d, d.f[i].n)) }
            IN IF \A i \in 1..Len(d.f) : all[i].ok /\ KeyOk(s.key, d.f[i])
               THEN Good([k |-> "obj", f |-> { <<d.f[i].n, all[i].v>> : i \in last }]) ELSE Wrong
      [] s.t = "rec" -> IF d.k # "obj" THEN Wrong ELSE
            LET all == [i \in 1..Len(s.fields) |-> ReadField(s.fields[i], d)]
            IN IF \A i \in 1..Len(s.fields) : all[i].ok
               THEN Good([k |-> "obj", f |-> { <<s.fields[i].n, all[i].v>> : i \in 1..Len(s.fields) }]) ELSE Wrong
      [] s.t = "unit" -> IF d.k # "obj" THEN Wrong ELSE
            LET at == Named(d, "unit_name") IN
            IF Cardinality(at) # 1 THEN Wrong
            ELSE LET v == d.f[MaxOf(at)].v IN
                 IF v.k # "str" THEN Wrong ELSE IF v.s \notin Units THEN Wrong
                 ELSE Good([k |-> "obj", f |-> { <<"unit_name", v>> }])

\* a list in the place of a record is read by position, or refused: nothing is said about it
RECURSIVE Positional(_, _)
Positional(s, d) ==
    CASE s.t \in {"rec", "unit"} -> d.k = "list" \/ (d.k = "obj" /\ s.t = "rec" /\
              \E i \in 1..Len(s.fields) : \E j \in Named(d, s.fields[i].n) : Positional(s.fields[i].s, d.f[j].v))
      [] s.t = "opt" -> Positional(s.of, d)
      [] s.t = "list" -> d.k = "list" /\ \E i \in 1..Len(d.l) : Positional(s.of, d.l[i])
      [] s.t = "map" -> d.k = "obj" /\ \E i \in 1..Len(d.f) : Positional(s.of, d.f[i].v)
      [] OTHER -> FALSE

\* what has been read
Get(v, n) == (CHOOSE p \in v.f : p[1] = n)[2]
Values(v) == { p[2] : p \in v.f }
Keys(v) == { p[1] : p \in v.f }
=============================================================================
