"""Checks of loading: C18 (version), C19 (damaged models), C32 (fields of the records)."""
import json, os, re, shutil, struct
from . import core, gen, models as M


# ------------------------------------------------------------------ documents
def f32(x):
    try:
        return repr(struct.unpack("f", struct.pack("f", x))[0])
    except OverflowError:
        return "inf"


def num(v):
    if isinstance(v, int):
        big = abs(v) > 2147483647
        return {"k": "int", "txt": str(v), "f": f32(float(v)), "n": (1 if v > 0 else -1) if big else v, "big": big}
    return {"k": "flt", "txt": repr(v), "f": f32(v)}


def field(n, v):
    i = bool(re.fullmatch(r"-?[1-9][0-9]*|0", n))
    x = int(n) if i else 0
    big = abs(x) > 2147483647
    return {"n": n, "i": i, "x": (1 if x > 0 else -1) if big else x, "big": big, "v": v}


def tree(v):
    if v is None:
        return {"k": "null"}
    if isinstance(v, bool):
        return {"k": "bool", "b": v}
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return {"k": "str", "s": core_ascii(v)}
    if isinstance(v, list):
        return {"k": "list", "l": [tree(x) for x in v]}
    return {"k": "obj", "f": [field(core_ascii(n), tree(x)) for n, x in v.items()]}


def core_ascii(s):
    return json.dumps(s)[1:-1]


def text(d):
    k = d["k"]
    if k == "null":
        return "null"
    if k == "bool":
        return "true" if d["b"] else "false"
    if k in ("int", "flt"):
        return d["txt"]
    if k == "str":
        return '"' + d["s"] + '"'
    if k == "list":
        return "[" + ",".join(text(x) for x in d["l"]) + "]"
    return "{" + ",".join('"%s":%s' % (f["n"], text(f["v"])) for f in d["f"]) + "}"


def lean(v):
    """What has been read: numbers by their text only."""
    if isinstance(v, bool):
        return {"k": "bool", "b": v}
    if isinstance(v, int):
        return {"k": "int", "txt": str(v)}
    if isinstance(v, float):
        return {"k": "flt", "txt": f32(v) if abs(v) < 3e38 else repr(v)}
    if isinstance(v, list):
        return {"k": "list", "l": [lean(x) for x in v]}
    if isinstance(v, dict):
        return {"k": "obj", "f": [{"n": core_ascii(n), "v": lean(x)} for n, x in v.items()]}
    return tree(v)


# ------------------------------------------------------------------ complete directories
PATTERNS = ["^go %CITY%$", "^play (?P<group0>%CITY%)$", "^(?P<group0_2>%CITY%) or (?P<group1>%SNIPSNUMBER%)$", "^make coffee$"]
BAD_PATTERNS = [{"p": "(", "ok": False, "groups": []}, {"p": "a{2,1}", "ok": False, "groups": []}, {"p": "[", "ok": False, "groups": []},
                {"p": "(?P<zzz>a*)", "ok": True, "groups": ["zzz"]}, {"p": "(?P<group0>x)(?P<group0>y)", "ok": False, "groups": []}]


def feature(name, offsets, **args):
    return {"factory_name": name, "offsets": offsets, "args": args}


ALL_FEATURES = [
    feature("ngram", [-1, 0, 1], n=1, use_stemming=True, common_words_gazetteer_name="common"),
    feature("ngram", [0], n=2, use_stemming=False, common_words_gazetteer_name=None),
    feature("shape_ngram", [0], n=1), feature("prefix", [0], prefix_size=2), feature("suffix", [0, 1], suffix_size=2),
    feature("is_digit", [0]), feature("length", [0]), feature("is_first", [0]), feature("is_last", [0]),
    feature("entity_match", [0], entities=["city"], tagging_scheme_code=1, use_stemming=True),
    feature("builtin_entity_match", [0], entity_labels=["snips/number"], tagging_scheme_code=2),
    feature("word_cluster", [0], cluster_name="brown", use_stemming=False)]


def base(d, kind):
    """Complete models: A has every part, B the smallest ones, C another language and another order."""
    lang = {"A": "en", "B": "en", "C": "fr"}[kind]
    mapping = {"go": {"where": "city", "n": "snips/number"}, "other": {"where": "city"}}
    city = {"city": [("paris", "Paris"), ("new york", "NYC")]}
    table = [{"phrase": "two", "kind": "snips/number", "value": {"kind": "Number", "value": 2.0}, "alternatives": []}]
    det = lambda p: M.deterministic(p, lang, {"go": PATTERNS[:3], "other": [PATTERNS[3]]}, {"group0": "where", "group1": "n"},
                                    mapping, {"go": ["the"]} if kind == "A" else None, kind == "A")
    look = lambda p: M.lookup(p, lang, [("makecoffee", "go", []), ("play%CITY%", "go", ["where"]), ("hello", "other", [])],
                              [{"intent_group": ["go", "other"], "entity_scope": {"builtin": ["snips/number"], "custom": ["city"]}}],
                              {"go": ["the"]}, True, slots=["where", "n"])
    clf = dict(intent_list=["go", "other", None], intercept=[0.5, -0.25, 0.1], coeffs=[[0.5] * 6, [0.25] * 6, [-1.0] * 6],
               vocab={"go": 0, "play": 1, "builtinentityfeaturesnipsnumber": 2, "entityfeaturecity": 3}, idf=[1.0, 1.5, 2.0, 0.5],
               tfidf_config={"use_stemming": True, "word_clusters_name": "brown"}, builtin_scope=["snips/number"],
               cooc={"word_pairs": {"0": ["go", "CITY"], "1": ["play", "the"]},
                     "config": {"window_size": 3, "filter_stop_words": True, "keep_order": True,
                                "unknown_words_replacement_string": "rareword"}})
    small = dict(intent_list=["go", None], featurizer=False)
    fill = {"go": dict(mapping={"where": "city", "n": "snips/number"}, tags={"paris": "B-where", "two": "B-n"}, features=ALL_FEATURES),
            "other": dict(mapping={"where": "city"}, tags={}, model=False)}
    less = {"go": dict(mapping={"where": "city"}, tags={"paris": "U-where"}, scheme=2, features=ALL_FEATURES[1:9])}
    prob = lambda p: M.probabilistic(p, lang, clf if kind == "A" else dict(clf, cooc=None, tfidf_config=None) if kind == "C" else small,
                                     fill if kind == "A" else less)
    parsers = {"A": [("p1", det), ("p2", look), ("p3", prob)], "B": [("p1", prob)], "C": [("p1", prob), ("p2", det)]}[kind]
    res = {"A": dict(custom=city, builtin=table, builtin_gaz={"snips/city": [("paris", "Paris")]},
                     stop_words=["the", "a"], stems={"go": ["going", "gone"]}, clusters={"brown": {"paris": "c1", "two": "042"}},
                     gazetteers={"common": ["go", "play"], "other": ["x"]}),
           "B": dict(custom={}, builtin=None), "C": dict(custom=city, builtin=table)}[kind]
    M.engine(os.path.join(d, "m"), lang, mapping, {"city": True}, parsers, res=res)
    return lang


def describe(root, lang):
    """The files of a directory as the specification sees them."""
    files = {}
    for top, _, names in os.walk(root):
        for n in names:
            p = os.path.join(top, n)
            rel = os.path.relpath(p, root)
            if n == "model.crfsuite":
                files[rel] = {"st": "crf"}
            elif "entity_parser/parser/" in rel or "builtin_entity_parser/" in rel:
                files[rel] = {"st": "env"}
            elif n.endswith(".json"):
                files[rel] = {"st": "json", "d": tree(json.load(open(p)))}
            else:
                files[rel] = {"st": "text"}
    table = "m/builtin_entity_parser/verif_table.json"       # of the stand-in: the absence of a table is no damage
    env = {"m/builtin_entity_parser": sorted(f for f in files if f.startswith("m/builtin_entity_parser/") and f != table),
           "m/custom_entity_parser/parser": sorted(f for f in files if f.startswith("m/custom_entity_parser/parser/"))}
    files.pop(table, None)
    rx = [{"p": core_ascii(p), "ok": True, "groups": [re.sub("_.*", "", g) for g in re.findall(r"\?P<(\w+)>", p)]} for p in PATTERNS]
    return {"files": files, "env": env, "regex": rx + BAD_PATTERNS}


# ------------------------------------------------------------------ damages
STRINGS = ["x", "", "snips/number", "snips/musicTrack", "city", "en", "fr", "common", "brown", "crf_slot_filler",
           "deterministic_intent_parser", "lookup_intent_parser", "probabilistic_intent_parser", "log_reg_intent_classifier",
           "featurizer", "where", "go", "p1", "p3", "stems", "stop_words", "is_digit", "word_cluster", "ngram", "caf\\u00e9"]
NUMBERS = [0, 1, 2, 3, -1, -2, 300, 256, 258, 65536, 2147483647, -2147483647, 5000000000, 9007199254740993, 0.5, -0.25, 1e39, 2.0]
NOT_THESE = ("builtin_entity_parser", "custom_entity_parser")


def nodes(d, path=()):
    yield path, d
    if d["k"] == "list":
        for i, x in enumerate(d["l"]):
            yield from nodes(x, path + (i,))
    elif d["k"] == "obj":
        for i, f in enumerate(d["f"]):
            yield from nodes(f["v"], path + (i,))


def at(d, path):
    for i in path:
        d = d["l"][i] if d["k"] == "list" else d["f"][i]["v"]
    return d


def mutate(rng, doc, n=1):
    d = json.loads(json.dumps(doc))
    files = any(f["n"] == "gazetteers" for f in (doc["f"] if doc["k"] == "obj" else []))
    for _ in range(n):
        path, x = rng.choice(list(nodes(d)))
        owner = at(d, path[:-1]) if path else None
        how = rng.random()
        if owner is not None and how < 0.2:
            del owner["l" if owner["k"] == "list" else "f"][path[-1]]
        elif owner is not None and how < 0.3:
            l = owner["l" if owner["k"] == "list" else "f"]
            l.insert(rng.randint(0, len(l)), json.loads(json.dumps(l[path[-1]])))
        elif owner is not None and how < 0.4 and owner["k"] == "obj":
            f = owner["f"][path[-1]]
            owner["f"][path[-1]] = field(rng.choice(["unknown", "7", "-3", "group0", "where", "go", "42", "5000000000", f["n"] + "s"]), f["v"])
        elif how < 0.5 and x["k"] == "obj":
            x["f"].insert(rng.randint(0, len(x["f"])), field("zz%d" % rng.randint(0, 9), rng.choice([tree(None), tree("x"), tree(3), tree([1])])))
        else:
            name = owner["f"][path[-1]]["n"] if owner is not None and owner["k"] == "obj" else ""
            strings = ["x", ""] if name in NOT_THESE else ["0.20.0", "0.19.0", "0.20.1", "x"] if name == "model_version" else STRINGS
            strings = [x for x in strings if x or not files]
            new = rng.choice([lambda: tree(None), lambda: tree(rng.choice([True, False])), lambda: num(rng.choice(NUMBERS)),
                              lambda: num(rng.choice(NUMBERS)), lambda: {"k": "str", "s": rng.choice(strings)},
                              lambda: {"k": "str", "s": rng.choice(strings)}, lambda: tree([]), lambda: tree({}),
                              lambda: tree([[]]), lambda: tree({"x": {}})])()
            if x["k"] == "str" and rng.random() < 0.6:
                new = {"k": "str", "s": rng.choice(strings + [p["p"] for p in BAD_PATTERNS])}
            if x["k"] in ("int", "flt") and rng.random() < 0.6:
                new = num(rng.choice(NUMBERS))
            if x["k"] == "obj" and new["k"] == "list":
                continue                                   # an array in place of a record is not specified
            x.clear()
            x.update(new)
    return d


def single(rng, doc):
    """The document with one node taken away or replaced by one that does not fit its place."""
    for path, x in list(nodes(doc)):
        name = next((at(doc, path[:k - 1])["f"][path[k - 1]]["n"] for k in range(len(path), 0, -1) if at(doc, path[:k - 1])["k"] == "obj"), "")
        new = [None] if path else []
        if x["k"] == "str":
            new.append({"k": "str", "s": "0.19.0" if name == "model_version" else "x"})
            if x["s"] in PATTERNS:
                new += [{"k": "str", "s": p["p"]} for p in rng.sample(BAD_PATTERNS, 2)]
        elif x["k"] in ("int", "flt"):
            new.append(num(rng.choice([-1, 300, 5000000000, 0.5])))
        elif x["k"] in ("bool", "null"):
            new.append(num(rng.choice(NUMBERS)))
        elif rng.random() < 0.4:
            new.append(tree(rng.choice([None, {}, 3]) if x["k"] == "obj" else rng.choice([None, [], 3, "x"])))
        for v in new:
            d = json.loads(json.dumps(doc))
            if v is None:
                owner = at(d, path[:-1])
                del owner["l" if owner["k"] == "list" else "f"][path[-1]]
            else:
                y = at(d, path)
                y.clear()
                y.update(v)
            yield d


class Copy:
    """A copy of a complete directory, and how it differs from it."""

    def __init__(self, ctx, n, src, desc):
        self.root = ctx.fresh_dir("copy")
        shutil.rmtree(self.root)
        shutil.copytree(src, self.root)
        self.base, self.desc, self.gone, self.delta = n, desc, set(), {}
        self.raw = {}

    def write(self, rel, data, state):
        p = os.path.join(self.root, rel)
        if os.path.isdir(p):
            shutil.rmtree(p)
        with open(p, "wb") as f:
            f.write(data)
        self.delta[rel] = state
        self.raw[rel] = data[:2000].decode("latin-1")

    def json(self, rel, doc):
        self.write(rel, text(doc).encode(), {"st": "json", "d": doc})

    def doc(self, rel):
        return (self.delta.get(rel) or self.desc["files"][rel])["d"]

    def damage(self, rng, rel, how=None):
        p = os.path.join(self.root, rel)
        if not os.path.isfile(p):
            return
        st = self.desc["files"][rel]["st"]
        data = open(p, "rb").read()
        bad = {"st": "bad"}
        how = how or rng.choice(["missing", "empty", "cut", "garbage", "null", "binary", "directory", "trailing", "mutate", "mutate", "mutate",
                                 "mutate", "mutate2", "columns"])
        if how == "missing":
            os.unlink(p)
            self.gone.add(rel)
            self.delta.pop(rel, None)
            self.raw[rel] = "missing"
        elif how == "directory":
            os.unlink(p)
            os.makedirs(p)
            self.delta[rel] = bad
            self.raw[rel] = "a directory"
        elif how == "binary":
            self.write(rel, data[:len(data) // 2] + b"\xff\xfe\xc3\x28" + data[len(data) // 2:], bad)
        elif how in ("mutate", "mutate2") and st == "json":
            self.json(rel, mutate(rng, self.doc(rel), 1 if how == "mutate" else 2))
        elif st == "json" and how == "null":
            self.json(rel, tree(rng.choice([None, 3, "x", {}, True])))
        elif st in ("json", "crf", "env") and how in ("empty", "cut", "garbage", "trailing"):
            new = {"empty": b"", "cut": data[:rng.randint(1, max(1, len(data) - 1))], "garbage": b"\x00\x01 garbage {", "trailing": data + b" }"}[how]
            self.write(rel, new, bad)
        elif st == "text" and how == "columns" and "word_clusters" in rel:
            self.write(rel, rng.choice([b"oneword\n", b"a\tb\nc\td\te\n", b"a\tb\nc\n"]), bad)
        elif st == "text" and how == "empty":
            self.write(rel, b"", {"st": "text"})

    def event(self, what, reply, ops, **kw):
        said = candidates(self.desc, self.delta)
        chain = "\n".join(reply.get("chain", [])).replace(self.root, "")
        written = {f["v"]["s"] for x in [self.delta.get("m/nlu_engine.json", {}).get("d", {"k": ""})] if x["k"] == "obj"
                   for f in x["f"] if f["n"] == "model_version" and f["v"]["k"] == "str"}
        said = {s for s in said if s not in written and unescape(s) in chain} | {s for s in written if stated(unescape(s), chain)}
        said |= {core_ascii(x) for x in re.findall(r"m/[^'\"\n]*", chain)}
        return dict({"op": "load", "base": self.base, "gone": sorted(self.gone), "delta": self.delta or {"none": {"st": "bad"}}, "what": what, "dir": "m",
                     "r": "m/resources/en", "b": "m/builtin_entity_parser", "c": "m/custom_entity_parser", "ops": ops,
                     "res": {"r": reply["r"], "said": sorted(said)}}, **kw)


def stated(version, chain):
    """The version of the model is in the message, besides the one that is supported."""
    own = "0.20.0"
    spots = [i for i in range(len(chain)) if chain.startswith(own, i)]
    return version in chain and (version not in own or any(version in chain[:i] + "\0" + chain[i + len(own):] for i in spots))


def unescape(s):
    return json.loads('"' + s + '"')


def candidates(desc, delta):
    out = {"0.20.0"} | set(desc["files"]) | set(delta)
    for d in [f["d"] for f in list(desc["files"].values()) + list(delta.values()) if "d" in f]:
        for _, x in nodes(d):
            if x["k"] == "str":
                out.add(x["s"])
            elif x["k"] in ("int", "flt"):
                out.add(x["txt"])
            elif x["k"] == "obj":
                out |= {f["n"] for f in x["f"]}
    return out


TEXTS = ["go paris", "play paris", "make coffee", "paris or two", "hello", "", "going to New York two", "\u65e5\u672c"]


def use(drv, h, intents=("go", "other")):
    """Uses an engine that loaded: outcomes only."""
    out = []
    for t in TEXTS:
        out.append(drv.call("parse", h=h, text=t, ia=2, sa=2)["r"])
        out.append(drv.call("get_intents", h=h, text=t)["r"])
        for i in intents:
            out.append(drv.call("get_slots", h=h, text=t, intent=i)["r"])
            out.append(drv.call("extract_slot", h=h, text=t, intent=i, slot="where")["r"])
    return sorted(set(out))


PARTS = {"deterministic": "m/p1", "lookup": "m/p2", "probabilistic": "m/p3", "classifier": "m/p3/intent_classifier",
         "slot_filler": "m/p3/slot_filler_0"}


def load_part(drv, what, root):
    p = os.path.join(root, PARTS[what])
    if what == "classifier":
        r, ops = drv.call("clf_load", h="x", res="res", path=p), [("clf_intent", {}), ("get_intents", {}), ("clf_features", {})]
    elif what == "slot_filler":
        r, ops = drv.call("sf_load", h="x", res="res", path=p), [("get_slots", {}), ("sf_features", {})]
    else:
        r = drv.call("parser_load", h="x", res="res", path=p, kind=what)
        ops = [("parser_parse", {}), ("get_intents", {}), ("get_slots", {"intent": "go"})]
    if r["r"] != "ok":
        return r, []
    return r, sorted({drv.call(op, h="x", text=t, **kw)["r"] for t in TEXTS for op, kw in ops})


# ------------------------------------------------------------------ the checks
VERSIONS = ["0.20.1", "0.20", "0.19.0", "0.2.0", "", "0.20.0 ", " 0.20.0", "v0.20.0", "0.20.00", "0.20.0.0", "00.20.0", "0.20.0-beta", "0.20.0\\n",
            "0.20", "0", "20.0", "0,20,0", "0.20.0\\u0000", "1.0.0", "0.21.0", "0.20.O", "x"]


DESIGN = """SPECIFICATION Spec
CONSTANT MaxDamages = %d
INVARIANTS Sound Refines VersionFirst FailsOnADamage Export
CHECK_DEADLOCK FALSE
"""
RECORDS = """SPECIFICATION Spec
INVARIANTS CompleteIsRead OrderIrrelevant UnknownIgnored RequiredNeeded AllFieldsGiven Idempotent Export
CHECK_DEADLOCK FALSE
"""
WHERE = {"version": "m/nlu_engine.json", "engine": "m/nlu_engine.json", "resmeta": "m/resources/en/metadata.json",
         "stems": "m/resources/en/stemming/stems.txt", "gaz": "m/resources/en/gazetteers/common.txt",
         "clusters": "m/resources/en/word_clusters/brown.txt", "stops": "m/resources/en/stop_words.txt",
         "builtin": "m/builtin_entity_parser/metadata.json", "builtingaz": "m/builtin_entity_parser/gazetteer_entity_parser/metadata.json",
         "custommeta": "m/custom_entity_parser/metadata.json", "customparser": "m/custom_entity_parser/parser/metadata.json",
         "detmeta": "m/p1/metadata.json", "det": "m/p1/intent_parser.json", "lookmeta": "m/p2/metadata.json", "look": "m/p2/intent_parser.json",
         "probmeta": "m/p3/metadata.json", "prob": "m/p3/intent_parser.json", "clfmeta": "m/p3/intent_classifier/metadata.json",
         "clf": "m/p3/intent_classifier/intent_classifier.json", "feat": "m/p3/intent_classifier/featurizer/featurizer.json",
         "tfidf": "m/p3/intent_classifier/featurizer/tfidf_vectorizer/vectorizer.json",
         "cooc": "m/p3/intent_classifier/featurizer/cooccurrence_vectorizer/vectorizer.json",
         "sfmeta": "m/p3/slot_filler_0/metadata.json", "sf": "m/p3/slot_filler_0/slot_filler.json", "crf": "m/p3/slot_filler_0/model.crfsuite"}
REQUIRED = {"engine": "training_package_version", "resmeta": "language", "custommeta": "parser_usage", "detmeta": "unit_name", "lookmeta": "unit_name",
            "probmeta": "unit_name", "clfmeta": "unit_name", "sfmeta": "unit_name", "det": "patterns", "look": "map", "prob": "slot_fillers",
            "clf": "intent_list", "feat": "tfidf_vectorizer", "tfidf": "vectorizer", "cooc": "word_pairs", "sf": "config"}


def without(doc, name):
    return {"k": "obj", "f": [f for f in doc["f"] if f["n"] != name]}


def with_field(doc, name, v):
    return {"k": "obj", "f": [dict(f, v=v) if f["n"] == name else f for f in doc["f"]]}


class Run:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.events, self.sources, self.bases, self.dirs = [], [], [], {}
        for n, kind in enumerate("ABC"):
            d = ctx.fresh_dir("base")
            lang = base(d, kind)
            self.dirs[n + 1] = (d, lang)
            self.bases.append(describe(d, lang))
        self.env = os.path.join(ctx.dir, "bases.ndjson")
        with open(self.env, "w") as f:
            for b in self.bases:
                f.write(json.dumps(b) + "\n")

    def copy(self, n):
        return Copy(self.ctx, n, self.dirs[n][0], self.bases[n - 1])

    def done(self, c, what, reply, ops, **kw):
        self.events.append(c.event(what, reply, ops, **kw))
        self.sources.append({"base": c.base, "changed": c.raw, "reply": reply})
        shutil.rmtree(c.root, ignore_errors=True)

    def engine(self, c):
        drv = self.ctx.driver()
        r = drv.call("engine_load", h="x", path=os.path.join(c.root, "m"))
        self.done(c, "engine", r, use(drv, "x") if r["r"] == "ok" else [], r="m/resources/" + self.dirs[c.base][1])

    def part(self, what, c):
        drv = self.ctx.driver()
        if not drv.__dict__.get("parts"):
            root = self.dirs[1][0]
            r = drv.call("res_load", h="res", resources=root + "/m/resources/en", builtin=root + "/m/builtin_entity_parser",
                         custom=root + "/m/custom_entity_parser")
            if r["r"] != "ok":
                raise core.ToolError("%r" % r)
            drv.parts = True
        r, ops = load_part(drv, what, c.root)
        self.done(c, what, r, ops, dir=PARTS[what])

    def resources(self, c):
        m = c.root + "/m/"
        r = self.ctx.driver().call("res_load", h="y", resources=m + "resources/en", builtin=m + "builtin_entity_parser",
                                   custom=m + "custom_entity_parser")
        ops = []
        if r["r"] == "ok":
            ops = [self.ctx.driver().call("res_query", h="y", words=["go", "paris", ""])["r"]]
        self.done(c, "resources", r, ops)

    def judge(self):
        ctx = self.ctx
        ctx.judge("LoadTrace", self.events, self.sources, env={"BASES": self.env})

    def corrupt(self, *evs):
        self.ctx.demonstrate_binding("LoadTrace", self.events, list(evs), env={"BASES": self.env})


def check(ctx):
    core.build()
    {"C18": check_version, "C19": check_damage, "C32": check_records}[ctx.prop](ctx)


def twist(ev, **kw):
    ev = json.loads(json.dumps(ev))
    ev["res"].update(kw)
    return ev


def complete(run):
    for n in (1, 2, 3):
        run.engine(run.copy(n))
    for what in PARTS:
        run.part(what, run.copy(1))
    run.resources(run.copy(1))


def check_version(ctx):
    rng = ctx.rng
    ctx.model_check("LoadDesign", DESIGN % ctx.pick(2, 3), env={"DUMP": os.path.join(ctx.dir, "unused.csv")}, timeout=3000)
    run = Run(ctx)
    complete(run)
    p = "m/nlu_engine.json"
    for n in (1, 2, 3):
        for v in VERSIONS + ["0.20.0"]:
            for rest in ("complete", "absent", "reordered", "wrong", "elsewhere", "twice") if n == 1 else ("complete", "absent"):
                c = run.copy(n)
                doc = with_field(c.doc(p), "model_version", {"k": "str", "s": v})
                if rest == "absent":
                    doc = {"k": "obj", "f": [f for f in doc["f"] if f["n"] == "model_version"]}
                elif rest == "reordered":
                    rng.shuffle(doc["f"])
                elif rest == "wrong":
                    for f in doc["f"]:
                        if f["n"] != "model_version":
                            f["v"] = tree(rng.choice([None, 3, "x", [1], {"a": {}}]))
                elif rest == "twice":
                    doc["f"].append(field("model_version", {"k": "str", "s": "0.20.0"}))
                c.json(p, doc)
                if rest == "elsewhere":                       # the rest of the directory is gone
                    for f in list(c.desc["files"]):
                        if f != p and rng.random() < 0.7:
                            c.damage(rng, f, "missing")
                run.engine(c)
        for v in (tree(None), num(20), tree(["0.20.0"]), tree({"v": "0.20.0"}), tree(True)):
            c = run.copy(n)
            c.json(p, with_field(c.doc(p), "model_version", v))
            run.engine(c)
        c = run.copy(n)
        c.json(p, without(c.doc(p), "model_version"))
        run.engine(c)
    for _ in range(ctx.pick(60, 1500)):                      # any other version, and any other damage of the file
        c = run.copy(rng.choice([1, 2, 3]))
        doc = mutate(rng, c.doc(p), rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.6 and doc["k"] == "obj":
            v = list("0.20.0")
            v[rng.randrange(6)] = rng.choice("0123456789.ab ")
            doc = with_field(doc, "model_version", {"k": "str", "s": "".join(v)})
        c.json(p, doc)
        run.engine(c)
    r = ctx.driver().call("version")
    if r.get("v") != "0.20.0":
        ctx.violation("supported-version", "the supported version is %r" % r, r)
    ctx.notes["versions_tried"] = len(VERSIONS)
    run.judge()
    other = next(e for e, s in zip(run.events, run.sources) if e["res"]["r"] == "err" and "0.19.0" in e["res"]["said"])
    run.corrupt(twist(run.events[0], r="err"), twist(other, r="ok"), twist(other, said=[]))


def check_damage(ctx):
    rng = ctx.rng
    dump = os.path.join(ctx.dir, "damages.csv")
    ctx.model_check("LoadDesign", DESIGN % 2, env={"DUMP": dump}, timeout=3000)
    run = Run(ctx)
    complete(run)
    # the behaviours of the design, on the real directory
    sets = []
    for line in set(open(dump)):
        line = json.loads(line)
        sets.append(json.loads(line) if isinstance(line, str) else line)
    sets.sort(key=lambda s: json.dumps(s))
    few = [s for s in sets if len(s["damage"]) < 2]
    many = [s for s in sets if len(s["damage"]) == 2]
    replayed = 0
    for s in few + rng.sample(many, ctx.pick(200, len(many))):
        c = run.copy(1)
        for name, how in sorted(map(tuple, s["damage"]), key=lambda x: x[0] == "version"):
            p = WHERE[name]
            if name == "version":
                if os.path.isfile(os.path.join(c.root, p)) and c.delta.get(p, {"st": "json"})["st"] == "json":
                    c.json(p, with_field(c.doc(p), "model_version", {"k": "str", "s": "0.19.0"}))
            elif how == "fields":
                c.json(p, without(c.doc(p), REQUIRED[name]))
            elif name == "clusters" and how == "bad":
                c.damage(rng, p, "columns")
            else:
                c.damage(rng, p, "missing" if how == "missing" else rng.choice(["empty", "cut", "garbage"]))
        run.engine(c)
        ok = run.events[-1]["res"]["r"] == "ok"
        if ok != (s["allowed"] == ["loaded"]):
            ctx.violation("design-outcome", "damage %s: the design allows %s" % (s["damage"], s["allowed"]), run.sources[-1])
        replayed += 1
    # each file, each way, one at a time
    for n in (1, 2, 3):
        for f in sorted(run.bases[n - 1]["files"]):
            for how in ["missing", "empty", "cut", "garbage", "null", "binary", "directory", "trailing", "columns"]:
                if n > 1 and rng.random() < 0.7:
                    continue
                c = run.copy(n)
                c.damage(rng, f, how)
                if c.raw:
                    run.engine(c)
    # every node of every document, one at a time
    for f, x in sorted(run.bases[0]["files"].items()):
        what = next((w for w, d in sorted(PARTS.items(), key=lambda i: -len(i[1])) if f.startswith(d + "/")
                     and f != d + "/metadata.json"), "resources" if f.startswith("m/resources") else "engine")
        for doc in single(rng, x["d"]) if x["st"] == "json" else []:
            if ctx.thorough() or rng.random() < 0.75:
                c = run.copy(1)
                c.json(f, doc)
                {"engine": run.engine, "resources": run.resources}.get(what, lambda c: run.part(what, c))(c)
    # the fields of the documents
    for _ in range(ctx.pick(350, 12000)):
        what = rng.choice(["engine"] * 3 + ["resources"] + list(PARTS))
        n = rng.choice([1, 1, 2, 3]) if what == "engine" else 1
        c = run.copy(n)
        inside = {"engine": "m/", "resources": "m/resources"}.get(what) or PARTS[what]
        files = sorted(f for f, x in run.bases[n - 1]["files"].items() if f.startswith(inside) and x["st"] == "json"
                       and (what == "engine" or f != inside + "/metadata.json" or what == "resources"))
        for f in rng.sample(files, min(len(files), rng.choice([1, 1, 1, 2]))):
            c.damage(rng, f, rng.choice(["mutate", "mutate", "mutate", "mutate2"]))
        if rng.random() < 0.1:
            c.damage(rng, rng.choice(files))
        {"engine": run.engine, "resources": run.resources}.get(what, lambda c: run.part(what, c))(c)
    ctx.notes["damage_sets_of_the_design_replayed"] = replayed
    ctx.notes["directories_loaded"] = len(run.events)
    ctx.notes["directories_accepted"] = sum(e["res"]["r"] == "ok" for e in run.events)
    for s in run.sources[-6:]:
        ctx.sample(json.dumps(s)[:300])
    run.judge()
    gone = next(e for e in run.events if e["gone"] == ["m/resources/en/gazetteers/common.txt"])
    run.corrupt(twist(run.events[0], r="err"), twist(gone, r="ok"), twist(gone, r="panic"), twist(gone, said=[]))


def check_records(ctx):
    rng, drv = ctx.rng, ctx.driver()
    dump = os.path.join(ctx.dir, "records.csv")
    ctx.model_check("ModelsDesign", RECORDS, env={"DUMP": dump})
    run = Run(ctx)
    complete(run)
    docs = []
    for line in sorted(set(open(dump))):
        line = json.loads(line)
        docs.append(json.loads(line) if isinstance(line, str) else line)
    first = len(run.events)
    extra = []
    for x in docs:
        if rng.random() < ctx.pick(0.3, 1.0):
            for _ in range(ctx.pick(1, 6)):
                extra.append({"type": x["type"], "doc": mutate(rng, x["doc"], rng.choice([1, 2]))})
    for x in docs + extra:
        if any(n["k"] in ("int", "flt") and n["f"] == "inf" for _, n in nodes(x["doc"])):
            continue
        r = drv.call("model", type=x["type"], json=text(x["doc"]))
        run.events.append({"op": "model", "type": x["type"], "doc": x["doc"], "res": {"r": r["r"], "v": lean(r["v"]) if r["r"] == "ok" else {"k": "null"}}})
        run.sources.append({"type": x["type"], "json": text(x["doc"]), "reply": r})
        drv = ctx.driver()
    ctx.notes["records_read"] = len(run.events) - first
    last = len(run.events)
    # the same in whole directories: fields added, removed, reordered; units in the place of others
    units = ["deterministic_intent_parser", "lookup_intent_parser", "probabilistic_intent_parser", "crf_slot_filler",
             "log_reg_intent_classifier", "featurizer", "Crf_slot_filler", ""]
    for f in sorted(x for x in run.bases[0]["files"] if x.endswith("metadata.json") and run.bases[0]["files"][x]["st"] == "json"):
        for u in units:
            c = run.copy(1)
            if "unit_name" in text(c.doc(f)):
                c.json(f, tree({"unit_name": u}))
                run.engine(c)
    for _ in range(ctx.pick(150, 3000)):
        c = run.copy(rng.choice([1, 1, 3]))
        files = sorted(f for f, x in c.desc["files"].items() if x["st"] == "json")
        for f in rng.sample(files, rng.choice([1, 2, len(files)])):
            doc = json.loads(json.dumps(c.doc(f)))
            for _, x in nodes(doc):
                if x["k"] == "obj" and rng.random() < 0.7:
                    rng.shuffle(x["f"])
            doc["f"].insert(rng.randint(0, len(doc["f"])), field("yet_another", tree(rng.choice([None, [1], {"x": "y"}]))))
            c.json(f, doc)
        if rng.random() < 0.4:
            f = rng.choice(files)
            doc = c.doc(f)
            c.json(f, without(doc, rng.choice(doc["f"])["n"]))
        run.engine(c)
    ctx.notes["directories_loaded"] = len(run.events) - last
    for s in run.sources[first:first + 4]:
        ctx.sample(json.dumps(s)[:300])
    run.judge()
    good = next(e for e in run.events[first:] if e["op"] == "model" and e["res"]["r"] == "ok")
    wrong = next(e for e in run.events[first:] if e["op"] == "model" and e["res"]["r"] == "err")
    run.corrupt(twist(good, r="err"), twist(wrong, r="ok", v={"k": "null"}), twist(good, v={"k": "null"}))
