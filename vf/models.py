"""Writes model directories (engines, parsers, classifiers, slot fillers, resources)."""
import base64, json, os


def b64(t):
    return base64.b64encode(t.encode()).decode()


def wjson(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(obj, f)


def wtext(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def string_value(kind, v):
    return {"kind": kind, "value": v}


def number(v):
    return {"kind": "Number", "value": float(v)}


def resources(d, lang="en", gazetteers=None, clusters=None, stems=None, stop_words=None, builtin=None, builtin_gaz=None,
              custom=None, usage=1, builtin_lang=None, custom_lang=None, threshold=1.0):
    """A resources directory plus the entity parsers. custom: {entity: [(raw, resolved)]};
    builtin: list of {phrase, kind, value, alternatives}; builtin_gaz: {kind: [(raw, resolved)]}"""
    meta = {"language": lang}
    r = os.path.join(d, "resources", lang)
    if gazetteers is not None:
        meta["gazetteers"] = sorted(gazetteers)
        for n, words in gazetteers.items():
            wtext(os.path.join(r, "gazetteers", n + ".txt"), words if isinstance(words, str) else "\n".join(words))
    if clusters is not None:
        meta["word_clusters"] = sorted(clusters)
        for n, m in clusters.items():
            wtext(os.path.join(r, "word_clusters", n + ".txt"),
                  m if isinstance(m, str) else "".join("%s\t%s\n" % kv for kv in m.items()))
    if stems is not None:
        meta["stems"] = "stems"
        if not isinstance(stems, str):
            stems = "".join(",".join([stem] + infl) + "\n" for stem, infl in stems.items())
        wtext(os.path.join(r, "stemming", "stems.txt"), stems)
    if stop_words is not None:
        meta["stop_words"] = "stop_words"
        wtext(os.path.join(r, "stop_words.txt"), stop_words if isinstance(stop_words, str) else "\n".join(stop_words))
    wjson(os.path.join(r, "metadata.json"), meta)
    b = os.path.join(d, "builtin_entity_parser")
    wjson(os.path.join(b, "metadata.json"), {"language": builtin_lang or lang,
                                             "gazetteer_parser": "gazetteer_entity_parser" if builtin_gaz is not None else None})
    if builtin is not None:
        wjson(os.path.join(b, "verif_table.json"), {"entities": builtin})
    if builtin_gaz is not None:
        gazetteer_parser(os.path.join(b, "gazetteer_entity_parser"), builtin_gaz, threshold)
    c = os.path.join(d, "custom_entity_parser")
    wjson(os.path.join(c, "metadata.json"), {"language": custom_lang or lang, "parser_directory": "parser", "parser_usage": usage})
    gazetteer_parser(os.path.join(c, "parser"), custom or {}, threshold)
    return {"resources": r, "builtin": b, "custom": c}


def gazetteer_parser(p, entities, threshold=1.0):
    names = sorted(entities)
    wjson(os.path.join(p, "metadata.json"), {"parsers_metadata": [
        {"entity_identifier": e, "entity_parser": "parser_%d" % (i + 1)} for i, e in enumerate(names)]})
    for i, e in enumerate(names):
        q = os.path.join(p, "parser_%d" % (i + 1))
        wjson(os.path.join(q, "metadata.json"), {"version": "0.8.0", "parser_filename": "parser", "threshold": threshold,
                                                 "stop_words": [], "edge_cases": []})
        wjson(os.path.join(q, "parser"), {"vanilla": [{"raw_value": a, "resolved_value": b} for a, b in entities[e]],
                                          "injected": []})


def slot_filler(p, lang="en", intent="i", mapping=None, tags=None, scheme=1, features=None, model=True, labels=None,
                weights=None, transitions=None, script=None):
    """tags: {normalised word: tag}"""
    wjson(os.path.join(p, "metadata.json"), {"unit_name": "crf_slot_filler"})
    if features is None:
        features = [{"factory_name": "ngram", "offsets": [0], "args": {
            "n": 1, "use_stemming": False, "common_words_gazetteer_name": None}}]
    wjson(os.path.join(p, "slot_filler.json"), {
        "language_code": lang, "intent": intent, "slot_name_mapping": mapping or {},
        "crf_model_file": "model.crfsuite" if model else None,
        "config": {"tagging_scheme": scheme, "feature_factory_configs": features}})
    if model:
        tags = tags or {}
        if labels is None:
            labels = ["O"] + sorted(set(tags.values()) - {"O"})
        w = dict(weights or {})
        for word, tag in tags.items():
            w.setdefault("ngram_1:" + word, {})[b64(tag)] = 8.0
        s = {"labels": [b64(l) for l in labels], "weights": w, "transitions": transitions or {}}
        s.update(script or {})
        wjson(os.path.join(p, "model.crfsuite"), s)


def classifier(p, lang="en", intent_list=(None,), intercept=None, coeffs=None, vocab=None, idf=None, featurizer=True,
               tfidf_config=None, builtin_scope=(), cooc=None, cooc_scope=None):
    wjson(os.path.join(p, "metadata.json"), {"unit_name": "log_reg_intent_classifier"})
    wjson(os.path.join(p, "intent_classifier.json"), {
        "featurizer": "featurizer" if featurizer else None, "intercept": intercept, "coeffs": coeffs,
        "intent_list": list(intent_list)})
    if featurizer:
        f = os.path.join(p, "featurizer")
        wjson(os.path.join(f, "metadata.json"), {"unit_name": "featurizer"})
        wjson(os.path.join(f, "featurizer.json"), {
            "language_code": lang, "tfidf_vectorizer": "tfidf_vectorizer",
            "cooccurrence_vectorizer": "cooccurrence_vectorizer" if cooc else None})
        vocab = vocab if vocab is not None else {"dummyword": 0}
        wjson(os.path.join(f, "tfidf_vectorizer", "vectorizer.json"), {
            "language_code": lang, "builtin_entity_scope": list(builtin_scope),
            "vectorizer": {"idf_diag": idf if idf is not None else [1.0] * len(vocab), "vocab": vocab},
            "config": tfidf_config or {"use_stemming": False, "word_clusters_name": None}})
        wjson(os.path.join(f, "tfidf_vectorizer", "metadata.json"), {"unit_name": "tfidf_vectorizer"})
        if cooc:
            wjson(os.path.join(f, "cooccurrence_vectorizer", "vectorizer.json"), dict(
                {"language_code": lang, "builtin_entity_scope": list(builtin_scope if cooc_scope is None else cooc_scope)}, **cooc))
            wjson(os.path.join(f, "cooccurrence_vectorizer", "metadata.json"), {"unit_name": "cooccurrence_vectorizer"})


def probabilistic(p, lang, clf, fillers):
    """clf: keyword arguments of classifier; fillers: {intent: keyword arguments of slot_filler}"""
    wjson(os.path.join(p, "metadata.json"), {"unit_name": "probabilistic_intent_parser"})
    wjson(os.path.join(p, "intent_parser.json"), {"slot_fillers": [
        {"intent": i, "slot_filler_name": "slot_filler_%d" % n} for n, i in enumerate(sorted(fillers))]})
    classifier(os.path.join(p, "intent_classifier"), lang, **clf)
    for n, i in enumerate(sorted(fillers)):
        slot_filler(os.path.join(p, "slot_filler_%d" % n), lang, i, **fillers[i])


def deterministic(p, lang, patterns, groups, slots, stop_whitelist=None, ignore_stop_words=False):
    wjson(os.path.join(p, "metadata.json"), {"unit_name": "deterministic_intent_parser"})
    m = {"language_code": lang, "patterns": patterns, "group_names_to_slot_names": groups, "slot_names_to_entities": slots,
         "config": {"ignore_stop_words": ignore_stop_words}}
    if stop_whitelist is not None:
        m["stop_words_whitelist"] = stop_whitelist
    wjson(os.path.join(p, "intent_parser.json"), m)


def fnv(text):
    h = 0xcbf29ce484222325
    for b in text.encode():
        h = ((h ^ b) * 0x100000001b3) & 0xffffffffffffffff
    h &= 0xffffffff
    return h - (1 << 32) if h & 0x80000000 else h


def lookup(p, lang, utterances, scopes, stop_whitelist=None, ignore_stop_words=False, intents=None, slots=None):
    """utterances: [(cleaned text, intent, [slot names])]"""
    wjson(os.path.join(p, "metadata.json"), {"unit_name": "lookup_intent_parser"})
    intents = intents or sorted({i for _, i, _ in utterances})
    slots = slots or sorted({s for _, _, l in utterances for s in l})
    wjson(os.path.join(p, "intent_parser.json"), {
        "language_code": lang, "slots_names": slots, "intents_names": intents,
        "map": {str(fnv(t)): [intents.index(i), [slots.index(s) for s in l]] for t, i, l in utterances},
        "entity_scopes": scopes, "stop_words_whitelist": stop_whitelist or {},
        "config": {"ignore_stop_words": ignore_stop_words}})


def engine(d, lang="en", mappings=None, entities=None, parsers=(), version="0.20.0", res=None):
    """mappings: {intent: {slot: entity}}; entities: {name: extensible}; parsers: [(directory name, function(path))]"""
    wjson(os.path.join(d, "nlu_engine.json"), {
        "dataset_metadata": {"language_code": lang,
                             "entities": {e: {"automatically_extensible": x} for e, x in (entities or {}).items()},
                             "slot_name_mappings": mappings or {}},
        "intent_parsers": [n for n, _ in parsers], "model_version": version, "training_package_version": "0.20.1",
        "builtin_entity_parser": "builtin_entity_parser", "custom_entity_parser": "custom_entity_parser"})
    paths = resources(d, lang, **(res or {}))
    for name, build in parsers:
        build(os.path.join(d, name))
    return paths
