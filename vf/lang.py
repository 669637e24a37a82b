"""Check of the languages: C30. Every part of a model sees the words of its own language; nothing else depends on it."""
import copy, json, os, shutil
from . import core, engine as en, gen, models as M
from .core import codes

ORDER = ["de", "en", "es", "fr", "it", "ja", "ko", "pt_pt", "pt_br"]          # of the separators of the stand-in
SEP = {l: chr(0xe000 + k) for k, l in enumerate(ORDER)}
TAGS = ["ngram_1", "ngram_1[+1]"]


def model(d, lang):
    """A model whose parts all tell the words apart."""
    sep = SEP[lang]
    name = "e" + sep + "f"
    ef = "entityfeatureef"
    cooc = {"word_pairs": {"0": ["a", "a"], "1": ["b", "b"], "2": ["b", "a"], "3": ["EF", "a"]},
            "config": {"window_size": None, "filter_stop_words": False, "keep_order": True, "unknown_words_replacement_string": None}}
    M.engine(d, lang, {"i": {}}, {name: True}, [
        ("det", lambda p: M.deterministic(p, lang, {"i": ["^\\s*a\\s*b\\s*$"]}, {}, {"i": {}})),
        ("look", lambda p: M.lookup(p, lang, [("a b", "i", [])], [{"intent_group": ["i"], "entity_scope": {"builtin": [], "custom": []}}])),
        ("prob", lambda p: M.probabilistic(p, lang, dict(
            intent_list=["i", None], intercept=[1.0], coeffs=[[0.0] * 8], vocab={"a": 0, "b": 1, "ab": 2, ef: 3}, idf=[1.0] * 4, cooc=cooc),
            {"i": dict(mapping={}, tags={})}))],
        res=dict(custom={name: [("a b", "found")]}, stop_words=[], stems={"c": ["cs"]}, gazetteers={"g": ["a"]}, clusters={"c": {"a": "1"}}))
    return name


class Parts:
    """The parts of the model of one language."""

    def __init__(self, ctx, lang):
        self.ctx, self.lang, self.drv = ctx, lang, ctx.driver()
        self.d = ctx.fresh_dir("lang")
        self.name = model(self.d, lang)
        self.h = lang
        j = lambda *x: os.path.join(self.d, *x)
        h = lambda x: self.h + x
        self.loads = []
        for what, r in (("engine", dict(op="engine_load", h=self.h, path=self.d)),
                        ("resources", dict(op="res_load", h=h("r"), resources=j("resources", lang), builtin=j("builtin_entity_parser"),
                                           custom=j("custom_entity_parser"))),
                        ("rules", dict(op="parser_load", h=h("d"), kind="deterministic", path=j("det"), res=h("r"))),
                        ("lookup", dict(op="parser_load", h=h("l"), kind="lookup", path=j("look"), res=h("r"))),
                        ("classifier", dict(op="clf_load", h=h("c"), path=j("prob", "intent_classifier"), res=h("r"))),
                        ("tagger", dict(op="sf_load", h=h("s"), path=j("prob", "slot_filler_0"), res=h("r")))):
            reply = self.drv.send(r)
            self.loads.append(({"op": "load", "r": reply["r"]}, {"language": lang, "part": what, "reply": reply}))
        self.loaded = all(e["r"] == "ok" for e, _ in self.loads)

    def ask(self, op, **kw):
        r = self.drv.call(op, **kw)
        if r["r"] != "ok":
            self.bad.append("%s: %r" % (op, r))
            return None
        return r["v"]

    def event(self, text):
        self.bad = []
        h = lambda x: self.h + x
        hit = lambda v: v is not None and v["intent"]["intentName"] == "i"
        toks = self.ask("tokenize", text=text, lang=self.lang)
        rules = hit(self.ask("parser_parse", h=h("d"), text=text))
        look = hit(self.ask("parser_parse", h=h("l"), text=text))
        ents = self.ask("custom", h=h("r"), text=text, kinds=None, sa=0) or []
        feats = [abs(x) > 1e-9 for x in self.ask("clf_features", h=h("c"), text=text) or [0] * 8]
        tags = self.ask("sf_features", h=h("s"), text=text) or []
        ev = {"op": "parts", "own": [ord(c) for c in " " + SEP[self.lang]], "text": codes(text), "tokens": [codes(t["v"]) for t in toks],
              "rules": rules, "lookup": look, "tagger": [codes(dict(map(tuple, t)).get("ngram_1", "?")) for t in tags],
              "entities": [list(m["range"]) for m in ents if m["entity"] == self.name],
              "features": dict(zip(("a", "b", "ab", "entity"), feats[:4])), "pairs": dict(zip(("aa", "bb", "ba", "ea"), feats[4:])),
              "r": "err" if self.bad else "ok"}
        return ev, {"language": self.lang, "text": text, "failed": self.bad}


def flat(x):
    """All the texts of an answer."""
    if isinstance(x, dict):
        return [t for k in sorted(x) for t in flat(x[k])]
    if isinstance(x, list):
        return [codes("[%d" % len(x))] + [t for y in x for t in flat(y)]
    if isinstance(x, float):
        return [codes("%.6f" % x)]
    return [codes(x if isinstance(x, str) else json.dumps(x))]


def tidy(r):
    """Intents of equal scores come in any order."""
    r = {k: copy.deepcopy(v) for k, v in r.items() if k in ("r", "v", "chain")}
    v = r.get("v")
    if isinstance(v, dict) and "alternatives" in v and "intent" in v:
        v["alternatives"].sort(key=lambda a: (-round(a["intent"]["confidenceScore"], 6), a["intent"]["intentName"] or ""))
    if isinstance(v, list) and v and isinstance(v[0], dict) and "intentName" in v[0]:
        v.sort(key=lambda a: (-round(a["confidenceScore"], 6), a["intentName"] or ""))
    return r


def exchange(t, a, b):
    return "".join(b if c == a else a if c == b else c for c in t)


def told(ctx, lang, n_texts):
    """The same engine declared in two languages, the same texts told in both."""
    rng, drv = ctx.rng, ctx.driver()
    other = rng.choice([l for l in ORDER if l != lang])
    seed = rng.random()
    import random
    dirs = []
    for l in (lang, other):
        r2 = random.Random(seed)
        w = gen.World(r2, lang=l)
        d = ctx.fresh_dir("told")
        # drawn with the words of one language, so that both models are alike
        w = en.random_engine(r2, d, drv, w)
        dirs.append((d, w))
    out = []
    for k, (d, _) in enumerate(dirs):
        r = drv.call("engine_load", h="t%d" % k, path=d)
        out.append(({"op": "load", "r": r["r"]}, {"language": (lang, other)[k], "part": "engine", "reply": r, "seed": seed}))
    if all(e["r"] == "ok" for e, _ in out):
        w = dirs[0][1]
        s1, s2 = SEP[lang], SEP[other]
        for _ in range(n_texts):
            t = w.text()
            t = "".join(rng.choice([s1, s1, s2]) if c in " ,-" and rng.random() < 0.5 else c for c in t)
            if rng.random() < 0.2:
                t += rng.choice([s1, s2])
            intent = rng.choice(w.intents)
            slot = rng.choice(sorted(w.mapping[intent]) or ["x"])
            req = rng.choice([dict(op="parse", ia=99, sa=3), dict(op="parse", ia=99, sa=3), dict(op="get_intents"),
                              dict(op="get_slots", intent=intent, sa=1), dict(op="extract_slot", intent=intent, slot=slot, sa=1)])
            a = tidy(drv.send(dict(req, h="t0", text=t)))
            b = tidy(drv.send(dict(req, h="t1", text=exchange(t, s1, s2))))
            out.append(({"op": "told", "what": req["op"], "s1": ord(s1), "s2": ord(s2), "text": codes(t), "text2": codes(exchange(t, s1, s2)),
                         "res": flat(a), "res2": flat(b)},
                        {"languages": [lang, other], "text": t, "request": req, "replies": [a, b], "seed": seed}))
    for d, _ in dirs:
        shutil.rmtree(d, ignore_errors=True)
    return out


# where a model names its language: file, and the way to it
PLACES = {"dataset": ("nlu_engine.json", ["dataset_metadata", "language_code"]),
          "rules": ("det/intent_parser.json", ["language_code"]),
          "lookup": ("look/intent_parser.json", ["language_code"]),
          "words": ("prob/intent_classifier/featurizer/tfidf_vectorizer/vectorizer.json", ["language_code"]),
          "pairs": ("prob/intent_classifier/featurizer/cooccurrence_vectorizer/vectorizer.json", ["language_code"]),
          "tagger": ("prob/slot_filler_0/slot_filler.json", ["language_code"]),
          "builtin": ("builtin_entity_parser/metadata.json", ["language"]),
          "custom": ("custom_entity_parser/metadata.json", ["language"])}
UNKNOWN = ["", "xx", "pt", "zh", "en-US", "english", "e n", "pt-br", "no", "null"]


def refuse(ctx, place, lang, code):
    d = ctx.fresh_dir("ref")
    model(d, lang)
    f, way = PLACES[place]
    p = os.path.join(d, f)
    m = json.load(open(p))
    x = m
    for k in way[:-1]:
        x = x[k]
    if x[way[-1]] != lang:
        raise core.ToolError("no language in %s" % place)
    x[way[-1]] = code
    M.wjson(p, m)
    if place == "dataset" and code and code != lang:
        shutil.copytree(os.path.join(d, "resources", lang), os.path.join(d, "resources", code), dirs_exist_ok=True)
    r = ctx.driver().call("engine_load", h="ref", path=d)
    shutil.rmtree(d)
    return ({"op": "refuse", "place": place, "code": code, "supported": code in ORDER, "r": r["r"]},
            {"place": place, "language": code, "model": lang, "reply": r})


def check(ctx):
    core.build()
    rng = ctx.rng
    n = ctx.pick(4, 6)
    cfg = """SPECIFICATION Spec
CONSTANTS MaxLen = %d Stray = "%s"
INVARIANTS C30_OneLanguage C30_NothingElse C30_Cover%s
CHECK_DEADLOCK FALSE
"""
    dump = os.path.join(ctx.dir, "texts.csv")
    ctx.model_check("LangDesign", cfg % (n, "nobody", " Export"), env={"DUMP": dump}, timeout=3000)
    for stray in ctx.pick(["rules", "injection"], ["rules", "lookup", "features", "pairs", "tagger", "entities", "injection"]):
        ctx.refute("LangDesign", cfg % (3, stray, ""), "C30_OneLanguage", "a part given another language (%s)" % stray)
    texts = sorted({tuple(json.loads(json.loads(l))) for l in open(dump)}, key=lambda t: (len(t), t))
    ctx.notes["texts_generated"] = len(texts)
    events, sources = [], []

    def add(pair):
        events.append(pair[0])
        sources.append(pair[1])

    for lang in ORDER:
        p = Parts(ctx, lang)
        for pair in p.loads:
            add(pair)
        if not p.loaded:
            continue
        others = [SEP[l] for l in ORDER if l != lang]
        for k, t in enumerate(texts):
            if len(t) == n and k % ctx.pick(3, 2) != len(lang) % 2:
                continue
            o = others[k % len(others)]
            add(p.event("".join({"1": SEP[lang], "2": o}.get(c, c) for c in t)))
        for o in others:                                # every other language
            for t in ("a2b", "a1b2", "2a1b", "a1b1a2b", "b2a1a", "a b2", "2"):
                add(p.event("".join({"1": SEP[lang], "2": o}.get(c, c) for c in t)))
        for _ in range(ctx.pick(60, 600)):              # longer texts
            o = rng.choice(others)
            t = "".join(rng.choice("aabb  11112") for _ in range(rng.randint(5, 9)))
            add(p.event("".join({"1": SEP[lang], "2": o}.get(c, c) for c in t)))
        # values added later
        for k, o in enumerate(others):
            for v, text, usage in (("c1d", "c1d", 1), ("c1d", "x c d", 2), ("c d", "c1d1x", 1), ("c2d1e", "c2d e", 2), ("1c2", "c2", 1),
                                   ("c2d", "c2d", 0), ("cs1d", "c1d", 0), ("d1cs", "x d c", 2)):
                v, text = [x.replace("1", SEP[lang]).replace("2", o) for x in (v, text)]
                d = ctx.fresh_dir("inj")
                shutil.copytree(p.d, d, dirs_exist_ok=True)
                meta = os.path.join(d, "custom_entity_parser", "metadata.json")
                M.wjson(meta, dict(json.load(open(meta)), parser_usage=usage))
                r = p.drv.call("inject", path=d, values=[[p.name, v]], vanilla=False)
                found = False
                if r["r"] == "ok":
                    r = p.drv.call("res_load", h="inj", resources=os.path.join(d, "resources", lang), builtin=os.path.join(d, "builtin_entity_parser"),
                                   custom=os.path.join(d, "custom_entity_parser"))
                if r["r"] == "ok":
                    r = p.drv.call("custom", h="inj", text=text, kinds=[p.name], sa=0)
                    found = r["r"] == "ok" and len(r["v"]) == 1
                add(({"op": "injected", "found": found}, {"language": lang, "value": v, "text": text, "reply": r}))
                shutil.rmtree(d)
            if k >= ctx.pick(1, 8):
                break
        for _ in range(ctx.pick(8, 60)):
            for pair in told(ctx, lang, ctx.pick(25, 40)):
                add(pair)
    for place in PLACES:
        for code in UNKNOWN:
            add(refuse(ctx, place, rng.choice(ORDER), code))
        for code in ORDER:
            add(refuse(ctx, place, rng.choice(ORDER) if place != "dataset" else code, code))
    for ev in events[::max(1, len(events) // 6)]:
        ctx.sample(json.dumps(ev)[:300])
    ctx.judge("LangTrace", events, sources)
    bad = []
    ev = copy.deepcopy(next(e for e in events if e["op"] == "parts" and e["lookup"]))
    ev["lookup"] = False
    bad.append(ev)
    ev = copy.deepcopy(next(e for e in events if e["op"] == "parts" and len(e["tagger"]) > 1))
    ev["tagger"].pop()
    bad.append(ev)
    ev = copy.deepcopy(next(e for e in events if e["op"] == "told"))
    ev["res"][-1] = ev["res"][-1] + [33]
    bad.append(ev)
    bad.append(dict(next(e for e in events if e["op"] == "refuse" and e["r"] == "err"), r="ok"))
    ctx.demonstrate_binding("LangTrace", events, bad)
