---------------------------- MODULE ModelsDesign ----------------------------
(* Every document one change away from a complete one, for every record of the model files. *)
EXTENDS Models, Json, IOUtils, CSV
S(x) == [k |-> "str", s |-> x]
N(t, x) == [k |-> "int", txt |-> t, f |-> t \o ".0", n |-> x, big |-> FALSE]
F(t) == [k |-> "flt", txt |-> t, f |-> t]
B(x) == [k |-> "bool", b |-> x]
L(x) == [k |-> "list", l |-> x]
O(x) == [k |-> "obj", f |-> x]
P(n, v) == [n |-> n, i |-> FALSE, x |-> 0, big |-> FALSE, v |-> v]
PI(n, x, v) == [n |-> n, i |-> TRUE, x |-> x, big |-> FALSE, v |-> v]

RECURSIVE Base(_)
Base(type) ==
    CASE type = "version" -> O(<< P("model_version", S("0.20.0")) >>)
      [] type = "entity" -> O(<< P("automatically_extensible", B(TRUE)) >>)
      [] type = "dataset" -> O(<< P("language_code", S("en")), P("entities", O(<< P("city", O(<< P("automatically_extensible", B(TRUE)) >>)) >>)),
                                  P("slot_name_mappings", O(<< P("go", O(<< P("where", S("city")) >>)) >>)) >>)
      [] type = "engine" -> O(<< P("dataset_metadata", Base("dataset")), P("intent_parsers", L(<< S("p1"), S("p2") >>)),
                                 P("model_version", S("0.20.0")), P("training_package_version", S("0.20.1")),
                                 P("builtin_entity_parser", S("b")), P("custom_entity_parser", S("c")) >>)
      [] type = "unit" -> O(<< P("unit_name", S("crf_slot_filler")) >>)
      [] type = "classifier" -> O(<< P("featurizer", S("f")), P("intercept", L(<< F("0.5"), N("1", 1) >>)),
                                     P("coeffs", L(<< L(<< F("-0.25") >>), L(<< N("2", 2) >>) >>)), P("intent_list", L(<< S("go"), Null >>)) >>)
      [] type = "featurizer" -> O(<< P("language_code", S("en")), P("tfidf_vectorizer", S("t")), P("cooccurrence_vectorizer", S("c")) >>)
      [] type = "tfidf" -> O(<< P("language_code", S("en")), P("builtin_entity_scope", L(<< S("snips/number") >>)),
                                P("vectorizer", O(<< P("idf_diag", L(<< F("1.5") >>)), P("vocab", O(<< P("hello", N("0", 0)) >>)) >>)),
                                P("config", O(<< P("use_stemming", B(TRUE)), P("word_clusters_name", S("w")) >>)) >>)
      [] type = "cooccurrence" -> O(<< P("language_code", S("en")), P("builtin_entity_scope", L(<< S("snips/number") >>)),
                                P("word_pairs", O(<< PI("0", 0, L(<< S("a"), S("b") >>)), PI("1", 1, L(<< S("b"), S("c") >>)) >>)),
                                P("config", O(<< P("window_size", N("3", 3)), P("filter_stop_words", B(TRUE)), P("keep_order", B(FALSE)),
                                                 P("unknown_words_replacement_string", S("u")) >>)) >>)
      [] type = "deterministic" -> O(<< P("language_code", S("en")), P("patterns", O(<< P("go", L(<< S("^go$") >>)) >>)),
                                P("group_names_to_slot_names", O(<< P("g", S("where")) >>)),
                                P("slot_names_to_entities", O(<< P("go", O(<< P("where", S("city")) >>)) >>)),
                                P("stop_words_whitelist", O(<< P("go", L(<< S("the") >>)) >>)),
                                P("config", O(<< P("ignore_stop_words", B(TRUE)) >>)) >>)
      [] type = "lookup" -> O(<< P("language_code", S("en")), P("slots_names", L(<< S("where") >>)), P("intents_names", L(<< S("go") >>)),
                                P("map", O(<< PI("-12", -12, L(<< N("0", 0), L(<< N("0", 0) >>) >>)) >>)),
                                P("entity_scopes", L(<< O(<< P("intent_group", L(<< S("go") >>)),
                                    P("entity_scope", O(<< P("builtin", L(<< S("snips/number") >>)), P("custom", L(<< S("city") >>)) >>)) >>) >>)),
                                P("stop_words_whitelist", O(<< P("go", L(<< S("the") >>)) >>)),
                                P("config", O(<< P("ignore_stop_words", B(TRUE)) >>)) >>)
      [] type = "probabilistic" -> O(<< P("slot_fillers", L(<< O(<< P("intent", S("go")), P("slot_filler_name", S("s")) >>) >>)) >>)
      [] type = "slot_filler" -> O(<< P("language_code", S("en")), P("intent", S("go")), P("slot_name_mapping", O(<< P("where", S("city")) >>)),
                                P("crf_model_file", S("m")),
                                P("config", O(<< P("tagging_scheme", N("1", 1)),
                                    P("feature_factory_configs", L(<< O(<< P("factory_name", S("ngram")), P("offsets", L(<< N("-1", -1), N("0", 0) >>)),
                                        P("args", O(<< P("n", N("1", 1)) >>)) >>) >>)) >>)) >>)

Replacements == { Null, B(FALSE), N("0", 0), N("-1", -1), N("300", 300), F("0.5"), S("x"), S(""), L(<<>>), O(<<>>),
                  [k |-> "int", txt |-> "5000000000", f |-> "5000000000.0", n |-> 1, big |-> TRUE] }
Put(s, i, x) == [s EXCEPT ![i] = x]
RECURSIVE Changed(_)
Changed(d) ==
    { r \in Replacements : ~(d.k = "obj" /\ r.k = "list") }           \* an array in place of a record is not specified
    \cup (CASE d.k = "obj" ->
            { O(RemoveAt(d.f, i)) : i \in 1..Len(d.f) }
            \cup { O(Append(d.f, d.f[i])) : i \in 1..Len(d.f) }
            \cup { O(Append(d.f, P("unknown_field", v))) : v \in { Null, S("x"), L(<< O(<<>>) >>) } }
            \cup { O(<< P("unknown_field", O(<< P("x", Null) >>)) >> \o d.f) }
            \cup { O(Put(d.f, i, [d.f[i] EXCEPT !.n = "Renamed", !.i = FALSE])) : i \in 1..Len(d.f) }
            \cup { O(Put(d.f, i, [d.f[i] EXCEPT !.n = "7", !.i = TRUE, !.x = 7])) : i \in 1..Len(d.f) }
            \cup { O(Put(d.f, i, [d.f[i] EXCEPT !.n = "-3", !.i = TRUE, !.x = -3])) : i \in 1..Len(d.f) }
            \cup { O(Reverse(d.f)) }
            \cup UNION { { O(Put(d.f, i, [d.f[i] EXCEPT !.v = c])) : c \in Changed(d.f[i].v) } : i \in 1..Len(d.f) }
        [] d.k = "list" ->
            { L(RemoveAt(d.l, i)) : i \in 1..Len(d.l) } \cup { L(Append(d.l, d.l[i])) : i \in 1..Len(d.l) }
            \cup UNION { { L(Put(d.l, i, c)) : c \in Changed(d.l[i]) } : i \in 1..Len(d.l) }
        [] OTHER -> {})

VARIABLES type, doc, read
vars == <<type, doc, read>>
Init == /\ type \in Types
        /\ doc \in { Base(type) } \cup Changed(Base(type))
        /\ read = [ok |-> FALSE, v |-> Null, done |-> FALSE]
Reads == /\ ~read.done
         /\ LET r == Read(Schema(type), doc) IN read' = [ok |-> r.ok, v |-> r.v, done |-> TRUE]
         /\ UNCHANGED <<type, doc>>
Next == Reads
Spec == Init /\ [][Next]_vars

\* ----------------------------------------------------------------- properties of the reading
TopFields == IF Schema(type).t = "rec" THEN Schema(type).fields ELSE <<>>
CompleteIsRead == read.done /\ doc = Base(type) => read.ok
OrderIrrelevant == read.done /\ doc.k = "obj" => Read(Schema(type), O(Reverse(doc.f))) = [ok |-> read.ok, v |-> read.v] \/ Schema(type).t = "map"
UnknownIgnored == read.done /\ doc.k = "obj" /\ Schema(type).t \in {"rec", "unit"} =>
    Read(Schema(type), O(Append(doc.f, P("yet_another", S("x"))))) = [ok |-> read.ok, v |-> read.v]
RequiredNeeded == read.done /\ doc.k = "obj" => \A i \in 1..Len(TopFields) :
    TopFields[i].absent = "error" /\ Named(doc, TopFields[i].n) = {} => ~read.ok
AllFieldsGiven == read.done /\ read.ok /\ Schema(type).t = "rec" => Keys(read.v) = { TopFields[i].n : i \in 1..Len(TopFields) }
Idempotent == read.done /\ read.ok /\ type \in {"version", "entity", "unit", "featurizer"} =>
    Read(Schema(type), O(SetToSeq({ P(p[1], p[2]) : p \in read.v.f }))) = [ok |-> TRUE, v |-> read.v]

Export == read.done => CSVWrite("%1$s", << ToJson([type |-> type, doc |-> doc]) >>, IOEnv.DUMP)
=============================================================================
