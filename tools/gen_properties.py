#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

ENG = "src/nlu_engine.rs"; UT = "src/utils.rs"; SU = "src/slot_utils.rs"
DET = "src/intent_parser/deterministic_intent_parser.rs"; LOOK = "src/intent_parser/lookup_intent_parser.rs"
PROB = "src/intent_parser/probabilistic_intent_parser.rs"
LRC = "src/intent_classifier/log_reg_intent_classifier.rs"; LR = "src/intent_classifier/logreg.rs"
FEATZ = "src/intent_classifier/featurizer.rs"; CRF = "src/slot_filler/crf_slot_filler.rs"
CRFU = "src/slot_filler/crf_utils.rs"; FE = "src/slot_filler/features.rs"; FP = "src/slot_filler/feature_processor.rs"
FU = "src/slot_filler/features_utils.rs"; BEP = "src/entity_parser/builtin_entity_parser.rs"
CEP = "src/entity_parser/custom_entity_parser.rs"; CACHE = "src/entity_parser/utils.rs"
RL = "src/resources/loading.rs"; INJ = "src/injection/injection.rs"; IE = "src/injection/errors.rs"
FFI = "ffi/src/lib.rs"; PY = "platforms/python/snips_nlu_rust/nlu_engine.py"; PYU = "platforms/python/snips_nlu_rust/utils.py"
ERR = "src/errors.rs"

p("C01", "Intent filters are sound",
  "A parse restricted by a whitelist and/or a blacklist of intents never returns, neither as its result nor as one of its alternatives, an intent that the whitelist leaves out or that the blacklist names. When the filters leave no intent at all, the result holds no intent.",
  ["inputs", "configurations"], "every engine, every text, every whitelist and blacklist over the known intents",
  "The filter is re-applied separately in every parser, in the classifier's special cases and in the alternatives; tests try one filter on one engine.",
  [ENG, LRC, DET, LOOK, PROB], [("intents filter", "the set of intents a parse may answer with", ENG)],
  [("computation and use of the filter", ENG+"::parse_with_alternatives"), ("filter in the classifier", LRC+"::get_intents_with_whitelist"), ("filter in the rule-based parsers", DET+"::parse, "+LOOK+"::parse")],
  ["SnipsNluEngine::parse_with_alternatives", "IntentParser::parse", "IntentClassifier::get_intent"])
p("C02", "Filters naming an unknown intent are refused, known ones never are",
  "A parse whose whitelist or blacklist names an intent the engine does not know fails with an error naming that intent, whatever the text. A parse whose filters name only known intents never fails because of them.",
  ["inputs", "configurations"], "every engine and every pair of filters",
  "Tests name one unknown intent in one filter.",
  [ENG], [("known intents", "the intents of the dataset the engine was trained on", ENG)],
  [("validation of the filters", ENG+"::parse_with_alternatives")], ["SnipsNluEngine::parse", "SnipsNluEngine::parse_with_alternatives"])
p("C03", "The parsers are tried in order and the first that finds an intent answers",
  "The result of a parse is the intent, score and resolved slots of the first intent parser, in the order of the engine, that finds an intent among those allowed; later parsers do not change it. When no parser finds one, the result has no intent and no slot, with the score the last parser gave to the absence of intent. The slots listing of an intent likewise holds the slots of the first parser that locates some for it, even when none of them can be resolved.",
  ["inputs", "configurations"], "every list of parsers, every text and filter",
  "Depends on the combination of the answers of all the parsers; tests use two parsers and one text each.",
  [ENG, PROB], [("intent parsers", "ordered list of the parsers of the engine", ENG)],
  [("cascade", ENG+"::parse_with_alternatives"), ("slots listing", ENG+"::get_slots_with_alternatives"), ("intent then slots", PROB+"::parse")], ["SnipsNluEngine::parse", "SnipsNluEngine::get_slots"])
p("C04", "Alternatives are the next best allowed intents, with their slots",
  "Asking for n intent alternatives yields the n best-scored allowed intents (the absence of intent included) other than the one returned, or all of them when fewer remain, in decreasing order of score. Each carries the score the intents listing gives it and the slots the slot listing gives for it, and asking for none yields none.",
  ["inputs", "configurations"], "every engine, text, filter and requested number of alternatives",
  "Exhaustiveness, order and exclusion of the returned intent depend on the whole score vector and on which parser answered.",
  [ENG], [("alternatives", "ordered list of intents with slots", ENG)],
  [("selection of the alternatives", ENG+"::parse_with_alternatives")], ["SnipsNluEngine::parse_with_alternatives"])
p("C05", "The intents listing is complete, sorted and takes the best score",
  "Listing the intents of a text returns exactly once every intent that at least one parser of the engine knows, and the absence of intent, in decreasing order of score. The score of each is the best any parser of the engine gives it.",
  ["inputs", "configurations"], "every engine and text",
  "A merge over several parsers with ties and zeros; tests check one text.",
  [ENG], [("scores", "score per intent and for no intent", ENG)],
  [("merge of the parsers' scores", ENG+"::get_intents"), ("completion with zero scores", DET+"::get_intents, "+LOOK+"::get_intents")], ["SnipsNluEngine::get_intents", "IntentParser::get_intents"])
p("C06", "Ranges and raw values point into the text that was given",
  "Every returned slot has a range of characters lying inside the text that was given, never empty unless an empty text is itself taken as the value of an extracted slot, and its raw value is exactly the text at this range. The result echoes the text unchanged.",
  ["inputs"], "every text, including non-ASCII letters, letters whose lower case is longer, multi-byte characters and long texts",
  "Offsets go through lower-casing, entity placeholders, re-tokenisation and byte/char conversions; tests use short ASCII texts.",
  [ENG, SU, UT, DET, LOOK, CRFU, CEP, BEP, CACHE], [("slot range", "character range in the input", SU)],
  [("range mapping through placeholders", UT+"::replace_entities"), ("range shifts of the custom entity parser", CEP+"::extract_entities"), ("byte to character conversion of tags", CRFU+"::tags_to_slots")],
  ["SnipsNluEngine::parse", "SnipsNluEngine::get_slots", "SnipsNluEngine::extract_slot", "IntentParser::parse"])
p("C07", "Slots of a parse are disjoint, in text order and declared by the intent",
  "The slots of a result, and those of each alternative, do not overlap, and come in the order of the text when a rule-based parser or the sequence tagger produced them. Each has a name that the intent declares and the entity that the intent maps this name to.",
  ["inputs", "configurations"], "every engine and text",
  "Overlaps arise only for particular combinations of patterns and entities.",
  [DET, LOOK, CRFU, ENG], [("slots", "slots of a result", ENG), ("slot name mapping", "intent to slot to entity", "src/models/nlu_engine.rs")],
  [("deduplication of overlapping slots", DET+"::deduplicate_overlapping_slots"), ("slot construction", CRFU+"::tags_to_slots"), ("slot entity mapping", DET+"::get_matching_result")],
  ["SnipsNluEngine::parse", "SnipsNluEngine::get_slots", "IntentParser::get_slots"])
p("C08", "Slots resolve to the entity found in the text, or are dropped by rule",
  "A slot is resolved with the entity of its own kind found at exactly its range in the whole text, or failing that, found in its raw value alone if it covers all of it for a custom entity. If none is found, the slot keeps its raw value as value when its custom entity is extensible, and disappears from the result otherwise; the alternatives of the value are at most as many as requested.",
  ["inputs", "configurations"], "every slot, every answer of the entity parsers, every extensibility flag and requested number of alternatives",
  "Case analysis over two entity families, two lookups and the extensibility flag; tests cover a few of the combinations.",
  [SU, ENG], [("custom entities", "extensible or not", "src/models/nlu_engine.rs"), ("matches", "entities found in the text", SU)],
  [("resolution", SU+"::resolve_builtin_slot, "+SU+"::resolve_custom_slot"), ("choice of the family", ENG+"::resolve_slots")], ["SnipsNluEngine::parse", "SnipsNluEngine::get_slots"])
p("C09", "Extracting one slot answers from the entity the slot is mapped to",
  "Extracting a given slot of a given intent returns a value only if an entity of the kind this slot is mapped to is found in the text, or takes the whole text as value when this entity is custom and extensible; otherwise it returns nothing. An intent or a slot the engine does not know is refused with an error naming it.",
  ["inputs", "configurations"], "every engine, text, intent and slot",
  "Tests cover two slots of one engine.",
  [ENG], [("slot name mapping", "intent to slot to entity", "src/models/nlu_engine.rs")],
  [("extraction", ENG+"::extract_slot_with_alternatives, extract_custom_slot, extract_builtin_slot")], ["SnipsNluEngine::extract_slot", "SnipsNluEngine::extract_slot_with_alternatives"])
p("C10", "Tag sequences decode into slots by the tagging scheme",
  "For each of the three tagging schemes and every sequence of tags over the tokens, the slots are runs of adjacent slot tags delimited by the scheme's begin, inside, last and unit marks, every token with a slot tag belonging to exactly one slot and no other token to any. A slot spans from the start of its first token to the end of its last one, and its name is that of the tag of its last token.",
  ["inputs", "configurations"], "every sequence of tags (also ill-formed ones), every text and each scheme",
  "The number of tag sequences is exponential; tests list a few sequences per scheme.",
  [CRFU, CRF], [("tagging scheme", "IO, BIO or BILOU", CRFU)],
  [("decoding", CRFU+"::tags_to_slot_ranges, is_start_of_io_slot, is_end_of_bio_slot, is_end_of_bilou_slot"), ("conversion into slots", CRFU+"::tags_to_slots")], ["CRFSlotFiller::get_slots", "IntentParser::get_slots"])
p("C11", "Token features have the documented value for every token",
  "Each feature of the sequence tagger (digits, length, first, last, n-gram, shape n-gram, prefix, suffix, custom and builtin entity match, word cluster) has for each token of each text exactly the value its definition gives, or is absent where the definition gives none. Entity match features mark the tokens of each match with the marks of their tagging scheme.",
  ["inputs", "configurations"], "every text, token and feature configuration",
  "Boundary cases (short tokens, first/last tokens, overlapping or absent matches, rare words) are many per feature.",
  [FE, FU, "src/slot_filler/macros.rs", CRFU], [("feature", "named function from a token position to an optional value", FE)],
  [("feature functions", FE), ("token chunks", FU+"::get_word_chunk"), ("entity scheme prefix", CRFU+"::get_scheme_prefix")], ["CRFSlotFiller::compute_features"])
p("C12", "Features are computed at the declared offsets only",
  "A feature declared with offsets gives to each token, under a name marked with the offset, the value the feature has at the token lying that many positions away, and nothing when this position is outside the text. Offset zero bears the plain name, every declared pair appears, and nothing undeclared appears.",
  ["inputs", "configurations"], "every list of features with offsets and every text",
  "Tests check one layout.",
  [FP], [("feature offsets", "list of features with an offset", FP)], [("offset handling", FP+"::compute_features"), ("feature construction", FP+"::get_features, src/slot_filler/macros.rs")], ["CRFSlotFiller::compute_features"])
p("C13", "The pattern parser matches exactly its patterns",
  "A rule-based parser with patterns returns an intent if and only if one of the patterns of an allowed intent matches the whole text, as given or with the entities found replaced by their placeholders, stop words and separators set aside, and the weight of its intent is more than half of the total weight of the matching intents, an intent weighing one over one plus its number of slots. The slots are the named groups of the matching pattern, located in the given text.",
  ["inputs", "configurations"], "every pattern list, text, filter, set of entities",
  "Ambiguity, placeholders and stop words interact; tests use one dataset.",
  [DET, UT], [("patterns", "regular expressions per intent", DET)],
  [("parse", DET+"::parse_top_intents, get_matching_result"), ("placeholders", UT+"::replace_entities"), ("stop words and separators", DET+"::preprocess_text")], ["DeterministicIntentParser::parse", "DeterministicIntentParser::get_intents", "DeterministicIntentParser::get_slots"])
p("C14", "The lookup parser matches exactly the utterances of its table",
  "The lookup parser returns an intent if and only if the cleaned text, as given or with some of the entities found replaced by placeholders, is in its table for an allowed intent, and the weight of this intent is more than half of the total weight of those found, an intent weighing one over one plus its number of slots, by the reading that has the fewest. The slots returned are those the table lists for such a reading, placed on the replaced entities in order.",
  ["inputs", "configurations"], "every table, text, filter, set of entities",
  "The subsets of overlapping entities are many; tests use one dataset.",
  [LOOK, UT], [("table", "hash of an utterance to an intent and its slots", LOOK)],
  [("candidates", LOOK+"::get_candidates, get_items_combinations"), ("table lookup", LOOK+"::parse_map_output")], ["LookupIntentParser::parse", "LookupIntentParser::get_intents", "LookupIntentParser::get_slots"])
p("C15", "Stop words are ignored, except those an intent keeps",
  "When stop words are enabled, removing from or adding to a text, or to a stored utterance pattern, words of the stop word list does not change the outcome of the rule-based parsers for the intents that do not keep these words. For an intent that keeps a word, and when stop words are disabled, that word must be present or absent exactly as in the pattern.",
  ["inputs", "configurations"], "every stop word list, per-intent exceptions, texts with stop words at any position",
  "A relation between runs over all positions; tests add one stop word.",
  [DET, LOOK], [("stop words", "words ignored", "src/resources/mod.rs"), ("stop words whitelist", "words kept by an intent", "src/models/intent_parser.rs")],
  [("stop words of an intent", DET+"::preprocess_text, "+LOOK+"::preprocess_text")], ["DeterministicIntentParser::parse", "LookupIntentParser::parse"])
p("C16", "An answer does not depend on the calls made before",
  "Whatever texts were handled before, with success or failure, the answer of every operation for a text is the one a freshly loaded engine gives for it (intents of equal scores may come in another order). Texts that differ, even by letter case or entity scope, do not share their answers wrongly, and no more than the configured number of past answers is kept.",
  ["histories"], "every sequence of calls, longer than the capacity of the caches",
  "Cache key confusions and evictions need particular sequences of calls; tests make isolated calls.",
  [CACHE, BEP, CEP, ENG], [("entity caches", "bounded map from a request to its entities", CACHE)],
  [("cache lookup", CACHE+"::try_cache"), ("cache keys", BEP+"::extract_entities, "+CEP+"::extract_entities")], ["SnipsNluEngine::parse", "BuiltinEntityParser::extract_entities", "CustomEntityParser::extract_entities"])
p("C17", "Concurrent use gives the answers of sequential use",
  "Calls made on one engine from several threads at once each return what they return alone (up to the order of intents of equal scores), and none blocks for ever. A call that fails in one thread does not affect the others.",
  ["schedules"], "every interleaving of calls by several threads on a shared engine, or on separate engines",
  "Unit tests are single-threaded.",
  [CACHE, BEP, CEP, ENG], [("cache lock", "mutual exclusion around each cache", BEP)],
  [("locking", BEP+"::extract_entities, "+CEP+"::extract_entities")], ["SnipsNluEngine::parse"])
p("C18", "Only models of the supported version load",
  "An engine loads only if the version written in its model is exactly the one the library supports. Otherwise loading fails with an error stating both versions, even if the rest of the model file could not be understood, and nothing else of the model is needed to tell.",
  ["inputs", "configurations"], "every version text and every rest of the model",
  "Tests try one other version.",
  [ENG, "src/lib.rs", "src/models/nlu_engine.rs", ERR], [("model version", "version of the format", "src/models/nlu_engine.rs")],
  [("version check", ENG+"::check_model_version")], ["SnipsNluEngine::from_path", "SnipsNluEngine::from_zip"])
p("C19", "A damaged model directory gives an error, never a crash",
  "Loading an engine, a parser, a classifier, a slot filler or the resources from a directory in which any file is missing, truncated, not valid JSON, of the wrong type or inconsistent either fails with an error or gives an engine that works; it never panics. A reference to a resource that the model lacks is reported by name.",
  ["fault_sequences", "configurations"], "every file of a model, each kind of damage, alone or in combination",
  "The product of files and damages is large; tests remove one file.",
  [ENG, LRC, FEATZ, DET, LOOK, PROB, CRF, CEP, RL], [("model directory", "files of a trained model", ENG)],
  [("loading", ENG+"::from_path, load_parser; "+RL+"::load_shared_resources")], ["SnipsNluEngine::from_path", "load_shared_resources", "LogRegIntentClassifier::from_path"])
p("C20", "A zipped engine is the engine of its directory and stays contained",
  "Loading an engine from an archive gives an engine with the same behaviour as loading it from the directory that was archived. No file is created outside a temporary directory, which is gone when loading ends, whatever the names in the archive, and an archive that is damaged or malformed gives an error.",
  ["inputs", "fault_sequences"], "every archive: entry orders, nested directories, hostile names, truncation, empty archive",
  "Tests load one well-formed archive.",
  [UT, ENG], [("temporary directory", "where the archive is extracted", ENG)], [("extraction", UT+"::extract_nlu_engine_zip_archive")], ["SnipsNluEngine::from_zip"])
p("C21", "Injected values are recognised as if they had been trained",
  "After an injection into an engine directory, every injected value of an entity is found in texts for this entity and resolves to its resolved value, values already known keep being found, and the later of two conflicting injections wins, the values of the others staying among the alternatives. With the vanilla option, values from earlier injections are forgotten while trained ones remain; entities that were not named are unchanged.",
  ["histories"], "every sequence of injections with values for any entities, with and without the vanilla option",
  "Depends on sequences of injections and reloads; tests do one.",
  [INJ], [("entity gazetteers", "values of each entity, on disk", INJ)], [("injection", INJ+"::inject"), ("normalisation and stemming of values", INJ+"::normalize_entity_value, stem_entity_value")], ["NluInjector::inject", "SnipsNluEngine::parse"])
p("C22", "A refused injection changes nothing",
  "An injection naming an entity that is unknown, or that does not accept values, is refused with an error naming it and leaves every file of the engine directory as it was, even if other entities of the same injection are valid. So does an injection whose engine cannot be read.",
  ["inputs", "fault_sequences"], "every mix of valid and invalid entities, in any order",
  "Partial writes depend on the order of the entities; tests check the error only.",
  [INJ, IE], [("engine directory", "files of the engine", INJ)], [("validation before writing", INJ+"::inject, get_entities_parsers_dirs")], ["NluInjector::inject"])
p("C23", "An interrupted injection leaves each entity either old or new",
  "Whenever an injection stops, by a failure or by the death of the process at any point, the engine directory still loads, and each entity recognises either the values it had before or those with the injected ones.",
  ["crash_points"], "every point at which the process may die or a write may fail",
  "Tests never interrupt an injection.",
  [INJ], [("entity parser directory", "files of one entity's gazetteer", INJ)], [("replacement of a parser directory", INJ+"::inject")], ["NluInjector::inject", "SnipsNluEngine::from_path"])
p("C24", "The classifier scores each intent by its logistic model",
  "The score of an intent is the logistic function of the intercept plus the sum of the products of its coefficients with the features of the text; a model with a single row of coefficients gives the complementary probabilities of two classes. Intents are listed in decreasing order of score, the one returned is the best of those allowed, and a classifier that cannot score (no features, no coefficients, empty text) answers that there is no intent with certainty.",
  ["inputs", "configurations"], "every model size, coefficients and text",
  "Tests compare a few numbers of one model.",
  [LR, LRC], [("weights", "intercepts and coefficients per class", LR), ("intent list", "class to intent", LRC)],
  [("scoring", LR+"::run"), ("listing", LRC+"::get_intents_with_whitelist")], ["LogRegIntentClassifier::get_intents", "LogRegIntentClassifier::get_intent"])
p("C25", "Texts are vectorised as the model was trained",
  "The feature vector of a text is the weighted, unit-length term counts of its words, entities and word clusters over the vocabulary, followed when present by the indicators of the word pairs occurring within the window, in the order of the model. Words and pairs outside the vocabulary have no effect and the length of the vector depends only on the model.",
  ["inputs", "configurations"], "every text, vocabulary, window size, order and stop word option",
  "Tests compare vectors for a few sentences.",
  [FEATZ], [("vocabulary", "term to position", FEATZ), ("word pairs", "pair to position", FEATZ)],
  [("tf-idf", FEATZ+"::TfidfVectorizer::transform"), ("co-occurrence", FEATZ+"::CooccurrenceVectorizer::transform"), ("concatenation", FEATZ+"::Featurizer::transform")], ["LogRegIntentClassifier::compute_features"])
p("C26", "Language resources answer exactly what their files list",
  "A gazetteer contains exactly the words of its file, a stemmer gives for each inflection of its file the stem listed and leaves other words unchanged, a word clusterer gives exactly the cluster of its file and nothing for other words, and the stop words are those of their file. Empty lines are ignored, and a malformed file is an error.",
  ["inputs", "configurations"], "every resource file and every word",
  "Tests use a few words.",
  ["src/resources/gazetteer.rs", "src/resources/stemmer.rs", "src/resources/word_clusterer.rs", RL], [("resources", "word sets and maps loaded from files", "src/resources/mod.rs")],
  [("parsing of the files", "src/resources/*.rs::from_reader"), ("loading", RL+"::load_shared_resources")], ["load_shared_resources", "SharedResources"])
p("C27", "The C interface gives the library's answers and per-thread errors",
  "Through the C interface, each operation returns the answer of the library for the same arguments, in the same order and with the same numbers, texts and absent values, whether as structures or as JSON. A failure is reported by its return code and leaves a message that only the calling thread reads; invalid arguments give an error, not a crash.",
  ["inputs", "schedules"], "every operation, argument, failure and thread",
  "There is no test of the C interface.",
  [FFI, "ffi/src/ffi_utils.rs"], [("engine handle", "engine behind a lock", FFI), ("last error", "per-thread message", FFI)],
  [("conversion of the arguments and results", FFI)], ["snips_nlu_engine_run_parse", "snips_nlu_engine_run_parse_into_json", "snips_nlu_engine_run_get_slots", "snips_nlu_engine_run_get_intents"])
p("C28", "The Python engine gives the library's answers as plain data",
  "The Python class returns, for parse, get_slots and get_intents, the library's answer for the same arguments as dictionaries and lists, for directories as for archives. Failures raise an exception with the library's message, filters that are not texts are refused before any call, and no value allocated by the library is kept or freed twice.",
  ["inputs", "histories"], "every operation and argument in any sequence",
  "The Python tests need a built library and check a handful of calls.",
  [PY, PYU, "platforms/python/ffi/src/lib.rs"], [("engine handle", "pointer owned by the Python object", PY)],
  [("argument conversion", PYU+"::CStringArray"), ("string ownership", PYU+"::string_pointer"), ("error check", PYU+"::check_ffi_error")], ["NLUEngine.parse", "NLUEngine.get_slots", "NLUEngine.get_intents"])
p("C29", "Probability of a tag sequence under the sequence tagger",
  "The probability a slot filler gives to a sequence of tags for a sequence of tokens is that of the tagger for the same tags, in which a tag that the tagger never saw is replaced by the outside tag, or by its first tag when it has none. Without a tagger it is one for the sequence made only of outside tags and zero for any other.",
  ["inputs", "configurations"], "every tag sequence and label set",
  "Tests check two sequences.",
  [CRF, CRFU], [("labels", "tags known to the tagger", CRF)], [("substitution of unseen tags", CRFU+"::get_substitution_label"), ("probability", CRF+"::get_sequence_probability")], ["CRFSlotFiller::get_sequence_probability"])
p("C30", "Every supported language works the same way end to end",
  "For each of the nine supported languages, resources and models declaring this language load and are used with the tokenisation of that same language throughout; a text for a language that is not supported is refused. Nothing else about the behaviour depends on the language.",
  ["configurations"], "each language in every place where a model names it",
  "Tests use English models.",
  ["src/language.rs", DET, LOOK, FEATZ, CRF, RL, CEP], [("language", "language of a model part", "src/language.rs")], [("language conversion", "src/language.rs::from_language")], ["SnipsNluEngine::from_path", "SnipsNluEngine::parse"])
p("C31", "No text makes a loaded engine panic",
  "On a model that loads, every operation on every text and argument returns an answer or an error and never panics: empty texts, blanks, any Unicode text, texts longer than usual, texts containing placeholder or pattern syntax, and unknown names.",
  ["inputs"], "every text and argument",
  "Tests use ordinary sentences.",
  [ENG, DET, LOOK, PROB, CRF, CRFU, FE, UT, CEP, SU], [("input", "the text", ENG)], [("all operations", ENG)], ["SnipsNluEngine::*", "IntentParser::*", "CRFSlotFiller::*"])
p("C32", "Model files are read by their documented fields",
  "Each model file is read by the names of its fields: absent optional fields take their default, unknown fields are ignored, and an absent required field, a wrong type or an unknown kind of processing unit is an error. A unit declared with a kind that does not fit its place (a slot filler as a parser, say) is refused.",
  ["inputs", "configurations"], "every model file type and every presence or absence of its fields",
  "Tests deserialise complete files.",
  ["src/models/nlu_engine.rs", "src/models/intent_parser.rs", "src/models/intent_classifier.rs", "src/models/slot_filler.rs", "src/models/processing_unit_metadata.rs"], [("model records", "records deserialised from the files", "src/models/mod.rs")],
  [("deserialisation", "src/models/*.rs"), ("dispatch on the kind", "src/intent_parser/mod.rs, src/slot_filler/mod.rs, src/intent_classifier/mod.rs")], ["serde_json::from_str on the public model types", "SnipsNluEngine::from_path"])
p("C33", "An error says which intent, slot, entity, file or version is at fault",
  "An error about a named thing names it in its message (with its causes): an unknown intent or slot given in a request, a file of the model that cannot be opened (or the parser it belongs to), the two versions of a mismatch, a resource, feature, feature argument, builtin entity, language, slot or group that the model refers to and that does not exist, an entity that cannot be injected. An error of a part that an operation consults makes the operation fail with that error; it is not turned into an answer. An operation does not fail when no consulted part does. Injection errors tell refusals from internal failures.",
  ["inputs", "fault_sequences"], "every failing operation",
  "Tests check that an error occurs, rarely what it says.",
  [ERR, IE, ENG, DET, LOOK, PROB, INJ], [("error kinds", "kinds of failures", ERR)], [("error messages", ERR+", "+IE)], ["snips_nlu_lib::SnipsNluError", "injection::NluInjectionError", "SnipsNluEngine::*"])
p("C34", "The probabilistic parser joins its classifier and its slot fillers",
  "The probabilistic parser answers a text with the intent and the score that its classifier gives among the allowed intents, and with the slots that the slot filler of that very intent finds in the whole text; no intent has no slots. Its listing of the intents is that of its classifier and the slots of a given intent are those of that intent's slot filler. An intent without slot filler is an error that names it, never the answer of another one, and a part that fails makes the operation fail with the error of that part.",
  ["inputs", "configurations", "fault_sequences"], "every classifier, set of slot fillers, text and filter, and every part that fails",
  "Tests use one classifier and two slot fillers that are stand-ins returning constants.",
  [PROB], [("classifier", "the intent classifier of the parser", PROB), ("slot fillers", "intent to slot filler", PROB)],
  [("classification then filling", PROB+"::parse"), ("listing", PROB+"::get_intents"), ("slots of an intent", PROB+"::get_slots")], ["ProbabilisticIntentParser::parse", "ProbabilisticIntentParser::get_intents", "ProbabilisticIntentParser::get_slots"])
p("C35", "An engine answers from what its files held when it was loaded",
  "Several engines may live in one process, loaded from directories or archives that resemble each other. Each of them answers every question as it would alone in its process, from the content its own place had when it was loaded: neither the other engines, loaded, asked or dropped before, after or at the same time by other threads, nor what happens to the files afterwards (replaced by another model, changed by an injection, removed) changes its answers. An engine loaded later, even from the same place, answers from the content found then, and a place without a model cannot be loaded.",
  ["histories", "configurations"], "every sequence of loadings, changes of the files, questions and releases, with several engines, one after the other or side by side",
  "Tests load one engine each, from files that never change; state shared by engines or read late shows only in particular sequences.",
  [ENG, RL, BEP, CEP], [("engines of a process", "each with its parsers, resources and caches", ENG), ("shared resources", "stop words, gazetteers, clusters and entity parsers of one engine", RL)],
  [("loading from a path", ENG+"::from_path, "+ENG+"::from_zip"), ("resources", RL+"::load_shared_resources"), ("entities", CEP+"::extract_entities, "+BEP+"::extract_entities")], ["SnipsNluEngine::from_path", "SnipsNluEngine::from_zip", "load_shared_resources"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
