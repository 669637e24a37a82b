"""Checks of the token features of the sequence tagger: C11 (values) and C12 (offsets)."""
import json, os, shutil
from . import core, gen, models as M

WORDS = ["go", "The", "LIGHT", "Paris", "caf\u00e9", "CAF\u00c9", "e\u0301t\u00e9", "42", "4a", "\u0663", "a_b", "x", "\u65e5\u672c\u8a9e", "stra\u00dfe",
         "lights", "Lights", "PLAYS", "playing", "plays", "one", "two", "ten", "percent", "%", "?", "iPhone", "\u01c5x", "\u0301", "very", "high", "new", "york", "city",
         "black", "coffee", "tea", "hundred", "\U0001d7d7", "abcdefgh", "ab1", "Ab12", "AB1", "1ab", "\u0130stanbul",
         "internationalization", "Stra\u00dfenbahnhaltestelle", "4242424242424242424242"]
STEMS = {"light": ["lights", "lighting"], "play": ["playing", "plays"], "caf": ["cafe"], "york": ["yorks"], "nouveau": ["new"], "H\u00e2t": ["hundred", "very"]}
CLUSTERS = {"brown": {"go": "12", "caf\u00e9": "3", "paris": "7", "\u65e5\u672c\u8a9e": "65535", "%": "9", "new york city": "77", "black coffee": "12"},
            "other": {"the": "0", "x": "41", "go the": "8", "new york": "5", "one two ten": "6", "high": "6", "the go x lights": "44"}}
GAZ = {"common": ["go", "the", "light", "play", "cafe", "42", "\u65e5\u672c\u8a9e"], "few": ["x", "H\u00e2t"]}
STEMMED_CUSTOM = dict(gen.CUSTOM, city=gen.CUSTOM["city"] + [("nouveau york", "NY"), ("caf", "Caf")])


def esc(s):
    return json.dumps(s)[1:-1]


def tokens(drv, text, lang):
    out = []
    for t in drv.call("tokenize", text=text, lang=lang)["v"]:
        out.append({"v": esc(t["v"]), "vc": [esc(c) for c in t["v"]], "n": esc(t["n"]), "nc": [esc(c) for c in t["n"]],
                    "nlen": len(t["n"]), "low": esc(t["low"]), "shape": t["shape"], "s": t["s"], "e": t["e"], "_n": t["n"]})
    return out


BLANK = {"kind": "", "n": 0, "gaz": {"g": False, "words": []}, "stem": False, "name": "", "scheme": 0, "cluster": {}, "offsets": [0],
         "matches": [], "query": ""}


def factory(rng, kinds, offsets):
    """A factory of the model file and the features it stands for."""
    kind = rng.choice(kinds)
    f = dict(BLANK, kind=kind, offsets=offsets)
    args = {}
    if kind in ("ngram", "shape_ngram"):
        args["n"] = f["n"] = rng.randint(1, 3) if rng.random() < 0.9 else rng.randint(4, 9)
        if kind == "ngram":
            f["stem"] = args["use_stemming"] = rng.random() < 0.4
            g = rng.choice([None, None, "common", "few"])
            args["common_words_gazetteer_name"] = g
            f["gaz"] = {"g": g is not None, "words": [esc(w) for w in GAZ[g]] if g else []}
    elif kind in ("prefix", "suffix"):
        args[kind + "_size"] = f["n"] = rng.randint(1, 5) if rng.random() < 0.75 else rng.randint(6, 20)
    elif kind == "word_cluster":
        args["cluster_name"] = f["name"] = rng.choice(sorted(CLUSTERS))
        f["cluster"] = {esc(w): c for w, c in CLUSTERS[f["name"]].items()}
    elif kind in ("entity_match", "builtin_entity_match"):
        names = rng.sample(sorted(gen.CUSTOM) if kind == "entity_match" else sorted(gen.BUILTIN) + ["snips/city"], rng.choice([1, 1, 2]))
        args["tagging_scheme_code"] = f["scheme"] = rng.randint(0, 2)
        if kind == "entity_match":
            f["stem"] = args["use_stemming"] = rng.random() < 0.4
        args["entities" if kind == "entity_match" else "entity_labels"] = names
        return {"factory_name": kind, "offsets": offsets, "args": args}, [dict(f, name=n) for n in names]
    return {"factory_name": kind, "offsets": offsets, "args": args}, [f]


ALL = ["is_digit", "length", "is_first", "is_last", "ngram", "shape_ngram", "prefix", "suffix", "entity_match", "builtin_entity_match",
       "word_cluster", "ngram", "entity_match", "builtin_entity_match"]


def text(rng, most=60):
    out = ""
    for k in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 8]) if rng.random() < 0.98 else rng.randint(most // 3, most)):
        w = rng.choice(WORDS)
        roll = rng.random()
        if roll < 0.35:
            w = rng.choice([v for l in STEMMED_CUSTOM.values() for v, _ in l] + [v for l in gen.BUILTIN.values() for v, _ in l])
            if rng.random() < 0.3:
                w = w.title()
        if "\u0130" in w and rng.random() < 0.7:
            w = "go"
        out += " " * rng.randint(5, 40) if rng.random() < 0.01 else ""
        out += (rng.choice(gen.SEPARATORS) if k or rng.random() < 0.1 else "") + w
    return out


def observe(drv, rng, lang, feats, h, txt, model=True):
    toks = tokens(drv, txt, lang)
    stems = {esc(i): {"v": esc(s), "len": len(s)} for s, l in STEMS.items() for i in l}
    back = {i: s for s, l in STEMS.items() for i in l}
    feats = [dict(f) for f in feats]
    for f in feats:
        if f["kind"] == "entity_match":
            q = " ".join(back.get(t["_n"], t["_n"]) if f["stem"] else t["_n"] for t in toks)
            r = drv.call("custom", h="r-" + lang, text=q, kinds=[f["name"]], sa=0)
        elif f["kind"] == "builtin_entity_match":
            q = list(" " * (toks[-1]["e"] if toks else 0))
            for t in toks:
                q[t["s"]:t["e"]] = list(txt[t["s"]:t["e"]])
            q = "".join(q)
            r = drv.call("builtin", h="r-" + lang, text=q, kinds=[f["name"]], cache=rng.random() < 0.5, sa=0)
        else:
            continue
        if r["r"] != "ok":
            raise core.ToolError("entity parser: %r" % r)
        f["query"] = esc(q)
        f["matches"] = [{"s": m["range"][0], "e": m["range"][1]} for m in r["v"]]
    r = drv.call("sf_features", h=h, text=txt)
    ev = {"op": "features", "model": model, "text": [esc(c) for c in txt], "tokens": [{k: v for k, v in t.items() if k != "_n"} for t in toks],
          "feats": [dict(f, name=esc(f["name"])) for f in feats], "stems": stems,
          "res": {"r": r["r"], "l": [[[esc(k), esc(v)] for k, v in l] for l in r["v"]] if r["r"] == "ok" else []}}
    return ev, {"text": txt, "features": [{k: f[k] for k in ("kind", "n", "name", "offsets", "stem", "scheme")} for f in feats], "reply": r}


def check(ctx):
    core.build()
    drv, rng = ctx.driver(), ctx.rng
    dump = os.path.join(ctx.dir, "behaviours.csv")
    nt, mo, no = ctx.pick((3, 3, 2), (4, 5, 3))
    if ctx.thorough():
        mo = 3
    ctx.model_check("FeaturesDesign", """SPECIFICATION Spec
CONSTANTS MaxTokens = %d MaxOffset = %d MaxOffsets = %d
INVARIANTS C12_OffsetsExact C12_Inside Export
CHECK_DEADLOCK FALSE
""" % (nt, mo, no), env={"DUMP": dump}, timeout=3000)
    behaviours = [json.loads(json.loads(l)) for l in open(dump)]
    ctx.notes["behaviours_generated"] = len(behaviours)
    res = {}
    for lang in ("en", "fr", "ja"):
        d = ctx.fresh_dir("res")
        res[lang] = M.resources(d, lang, gazetteers=GAZ, clusters=CLUSTERS, stems=STEMS, custom=STEMMED_CUSTOM, builtin=gen.builtin_table(),
                                builtin_gaz=gen.GAZ, usage=rng.randint(0, 2))
        r = drv.call("res_load", h="r-" + lang, **res[lang])
        if r["r"] != "ok":
            raise core.ToolError(str(r))
    events, sources = [], []

    def add(pair):
        events.append(pair[0])
        sources.append(pair[1])

    loaded = {}

    def load(lang, factories, model=True):
        p = os.path.join(ctx.dir, "filler")
        M.slot_filler(p, lang, "i", {}, {"go": "B-x"}, 1, features=factories, model=model)
        r = drv.call("sf_load", h="f", path=p, res="r-" + lang)
        shutil.rmtree(p)
        return r

    # behaviours of the design: "7" is a digit, "x" is none
    for b in sorted(behaviours, key=lambda b: b["offsets"]):
        if loaded.get("offsets") != b["offsets"]:
            loaded["offsets"] = b["offsets"]
            r = load("en", [{"factory_name": "is_digit", "offsets": b["offsets"], "args": {}}])
            if r["r"] != "ok":
                raise core.ToolError(str(r))
        add(observe(drv, rng, "en", [dict(BLANK, kind="is_digit", offsets=b["offsets"])], "f",
                    " ".join("7" if j + 1 in b["present"] else "x" for j in range(b["n"]))))
    # random sets of features on random texts
    for n in range(ctx.pick(500, 4000)):
        lang = rng.choice(["en", "en", "fr", "ja"])
        factories, feats = [], []
        for _ in range(rng.randint(1, 5) if rng.random() < 0.97 else rng.randint(17, 24)):
            offs = rng.choice([[0], [0], [-1, 0, 1], [-2, -1, 0], [1, 2], [], None])
            if offs is None:
                offs = [rng.randint(-5, 5) for _ in range(rng.randint(1, 4))]
                if rng.random() < 0.15:
                    offs = [rng.randint(-40, 40) for _ in range(rng.randint(1, 24))]
            a, b = factory(rng, ALL, offs)
            factories.append(a)
            feats += b
        model = rng.random() > 0.05
        r = load(lang, factories, model)
        if r["r"] != "ok":
            raise core.ToolError(str(r))
        for _ in range(12):
            add(observe(drv, rng, lang, feats, "f", text(rng), model))
    for ev in events[-50::10]:
        ctx.sample(json.dumps({"tokens": [t["v"] for t in ev["tokens"]], "features": ev["res"]["l"]})[:300])
    ctx.judge("FeaturesTrace", events, sources)
    plain = next(json.loads(json.dumps(ev)) for ev in events if any(any("[" not in k for k, _ in t) for t in ev["res"]["l"]))
    moved = next(json.loads(json.dumps(ev)) for ev in events if any(any("[" in k for k, _ in t) for t in ev["res"]["l"]))
    for ev, mark in ((plain, False), (moved, True)):
        pair = next(p for t in ev["res"]["l"] for p in t if ("[" in p[0]) == mark)
        pair[1] += "0"
    ctx.demonstrate_binding("FeaturesTrace", events, [plain, moved])
