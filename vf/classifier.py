"""Checks of the intent classifier: C24 (scores) and C25 (features)."""
import json, os, shutil
from . import core, gen, models as M
from .core import NONE
from .features import WORDS, STEMS, STEMMED_CUSTOM, esc, text
from .engine import micro, iname

CLUSTERS = {"brown": {"go": "12", "caf\u00e9": "3", "paris": "7", "new york": "44", "black coffee": "12", "%": "9", "the light": "12", "light x go the paris": "7"},
            "other": {"the": "0", "x": "41", "new york city": "0", "go the x light": "41"}}
ENDLESS = "light go " * 6 + "the"
CLUSTERS["brown"][ENDLESS] = "12"
CLUSTERS["other"][ENDLESS] = "0"
LONG = ["go the x light", ENDLESS, ENDLESS + " x", "Light  x go the Paris", "the go the x light x"]
STOP = ["the", "go", "x", "%", "high"]


def listed(r):
    return {"n": iname(r["intentName"]), "s": micro(r["confidenceScore"])}


class Clf:
    """A classifier on the disk and what the specification needs to know of it."""

    def __init__(self, ctx, drv, lang, res, handle="c"):
        self.ctx, self.drv, self.lang, self.res, self.h = ctx, drv, lang, res, handle
        self.cooc = None
        self.names_seen = {}

    def load(self):
        p = os.path.join(self.ctx.dir, "clf")
        M.classifier(p, self.lang, **self.args)
        r = self.drv.call("clf_load", h=self.h, path=p, res=self.res)
        shutil.rmtree(p)
        return r

    def joined(self, name):
        """The words of a name, together: how entities are named among the features."""
        if name not in self.names_seen:
            self.names_seen[name] = "".join(t["v"] for t in self.drv.call("tokenize", text=name, lang=self.lang)["v"])
        return self.names_seen[name]

    def ok(self, r):
        if r["r"] != "ok":
            raise core.ToolError("entity parser: %r" % r)
        return r["v"]

    def vec(self, txt):
        a, drv = self.args, self.drv
        back = {i: s for s, l in STEMS.items() for i in l}
        raw = drv.call("tokenize", text=txt, lang=self.lang)["v"]
        stemming = a["tfidf_config"]["use_stemming"]
        query = " ".join(back.get(t["n"], t["n"]) if stemming else t["n"] for t in raw)
        builtins = [m["kind"] for m in self.ok(drv.call("builtin", h=self.res, text=txt, kinds=a["builtin_scope"], cache=False, sa=0))]
        customs = [m["entity"] for m in self.ok(drv.call("custom", h=self.res, text=query, kinds=None, sa=0))]
        names = {k: esc(self.joined(k.lower())) for k in builtins + customs}
        name = a["tfidf_config"]["word_clusters_name"]
        ents, pairs, config = [], [], {}
        if self.cooc:
            for r, key in ((drv.call("builtin", h=self.res, text=txt, kinds=a["cooc_scope"], cache=False, sa=0), "kind"),
                           (drv.call("custom", h=self.res, text=txt, kinds=None, sa=0), "entity")):
                for m in self.ok(r):
                    w = self.joined(m[key]).upper()
                    ents.append({"s": m["range"][0], "e": m["range"][1], "phwords": [{"v": w, "r": 0}] if w else []})
            config = self.cooc["config"]
            pairs = [self.cooc["word_pairs"][str(k)] for k in range(len(self.cooc["word_pairs"]))]
        order = sorted({t["v"] for t in raw} | {w["v"] for e in ents for w in e["phwords"]})
        rank = {w: k for k, w in enumerate(order)}
        toks = [{"s": t["s"], "e": t["e"], "v": esc(t["v"]), "n": esc(t["n"]), "stem": esc(back.get(t["n"], t["n"])), "low": esc(t["low"]),
                 "r": rank[t["v"]]} for t in raw]
        for e in ents:
            e["phwords"] = [{"v": esc(w["v"]), "r": rank[w["v"]]} for w in e["phwords"]]
        r = drv.call("clf_features", h=self.h, text=txt)
        window = config.get("window_size")
        ev = {"op": "vec", "r": r["r"], "toks": toks, "stemming": stemming, "builtins": builtins, "customs": customs, "names": names,
              "clusters": {esc(k): v for k, v in CLUSTERS[name].items()} if name else {},
              "longest": max([len(k.split()) for k in CLUSTERS[name]] if name else [1]),
              "vocab": {esc(k): v for k, v in a["vocab"].items()}, "idf": [int(round(x * 100)) for x in a["idf"]],
              "cooc": self.cooc is not None, "pairs": [[esc(x) for x in p] for p in pairs], "ents": ents,
              "filter": config.get("filter_stop_words", False), "stops": [esc(w) for w in STOP],
              "unknown": esc(config.get("unknown_words_replacement_string") or "\u0000"), "window": -1 if window is None else min(window, 1000),
              "keep": config.get("keep_order", False),
              "got": [int(round(x * 100000)) for x in r["v"]] if r["r"] == "ok" else []}
        return ev, {"text": txt, "language": self.lang, "classifier": self.args, "reply": r}

    def score(self, txt, asks):
        a, drv = self.args, self.drv
        feats = drv.call("clf_features", h=self.h, text=txt) if a["featurizer"] else {"r": "ok", "v": []}
        lst = drv.call("clf_intents", h=self.h, text=txt)
        got, bad = [], [r["r"] for r in (feats, lst) if r["r"] != "ok"]
        for wl in asks:
            r = drv.call("clf_intent", h=self.h, text=txt, wl=wl)
            if r["r"] != "ok":
                bad.append(r["r"])
            got.append({"all": wl is None, "allowed": wl or [],
                        "got": listed(r["v"]) if r["r"] == "ok" else {}})
        fitted = a["intercept"] is not None and a["coeffs"] is not None
        hund = lambda x: int(round(x * 100))
        ev = {"op": "score", "r": bad[0] if bad else "ok", "text": esc(txt),
              "feats": [int(round(x * 100000)) for x in feats["v"]] if feats["r"] == "ok" else [],
              "model": {"intents": [NONE if i is None else i for i in a["intent_list"]], "featurizer": a["featurizer"],
                        "intercept": [hund(x) for x in a["intercept"]] if fitted else [],
                        "coeffs": [[hund(x) for x in row] for row in a["coeffs"]] if fitted else []},
              "listing": [listed(i) for i in lst["v"]] if lst["r"] == "ok" else [], "asked": got}
        return ev, {"text": txt, "language": self.lang, "classifier": self.args, "reply": lst}


def cooc_of(rng, words, order, window, filt, unknown, n):
    pairs = []
    while len(pairs) < n:
        p = (rng.choice(words), rng.choice(words))
        if not order and p[0] > p[1]:
            p = (p[1], p[0])
        if p not in pairs:
            pairs.append(p)
    return {"word_pairs": {str(k): list(p) for k, p in enumerate(pairs)},
            "config": {"window_size": window, "filter_stop_words": filt, "keep_order": order,
                       "unknown_words_replacement_string": unknown}}


def random_args(rng, drv, lang):
    scope = rng.sample(sorted(gen.BUILTIN) + ["snips/city"], rng.randint(0, 4))
    stem = rng.random() < 0.4
    clusters = rng.choice([None, None, "brown", "other"])
    norm = {w: "".join(t["n"] for t in drv.call("tokenize", text=w, lang=lang)["v"]) for w in WORDS}
    pool = list(norm.values()) + list(STEMS) + ["entityfeature" + e for e in ("drink", "city", "roomtype", "level", "entit\u00e9")] * 2 \
        + ["builtinentityfeaturesnips" + k for k in ("number", "ordinal", "percentage", "city")] * 2 \
        + sorted(set(CLUSTERS["brown"].values()) | set(CLUSTERS["other"].values())) + ["coffee", "tea", "paris", "zzz"]
    pool = [w for w in dict.fromkeys(pool) if w]
    words = rng.sample(pool, min(len(pool), rng.choice([0, 1, 5, 12, 20])))
    vocab = {w: k for k, w in enumerate(words)}
    if words and rng.random() < 0.2:                 # positions that nothing has, or that two words have
        vocab = {w: rng.randint(0, len(words) + 2) for w in words}
    n = max([v + 1 for v in vocab.values()] or [0]) + (rng.random() < 0.1)
    args = dict(vocab=vocab, idf=[round(rng.uniform(0.3, 3), 2) for _ in range(n)], builtin_scope=scope,
                tfidf_config={"use_stemming": stem, "word_clusters_name": clusters})
    cooc = None
    if rng.random() < 0.7:
        raw = ["SNIPSNUMBER", "SNIPSCITY", "DRINK", "CITY", "ROOMTYPE", "LEVEL", "SNIPSORDINAL"] + rng.sample(WORDS, 12) + ["go", "%"]
        cooc = cooc_of(rng, raw, rng.random() < 0.5, rng.choice([None, None, 0, 1, 2, 3, 2 ** 63]), rng.random() < 0.5,
                       rng.choice([None, "x", "light", "go"]), rng.choice([0, 3, 10, 25]))
    scope2 = rng.sample(sorted(gen.BUILTIN) + ["snips/city"], rng.randint(0, 4))
    args.update(cooc=cooc, cooc_scope=scope2)
    size = max([v + 1 for v in vocab.values()] or [0]) + (len(cooc["word_pairs"]) if cooc else 0)
    k = rng.choice([0, 1, 2, 2, 3, 4, 6]) if rng.random() < 0.96 else rng.randint(10, 40)
    names = ["i%d" % j for j in range(k)]
    if k and rng.random() < 0.8:
        names[rng.randrange(k)] = None
    rows = 1 if len(names) == 2 and rng.random() < 0.8 else max(1, len(names))
    if len(names) == 1:
        rows = rng.choice([1, 1, 2])
    args.update(intent_list=names, featurizer=True, intercept=[round(rng.uniform(-2, 2), 2) for _ in range(rows)],
                coeffs=[[round(rng.uniform(-5, 5), 2) if rng.random() < 0.8 else 0.0 for _ in range(size)] for _ in range(rows)])
    if rng.random() < 0.08:                          # scores of zero and of one
        args["intercept"] = [round(x * 90, 2) for x in args["intercept"]]
    roll = rng.random()
    if roll < 0.06:
        args["featurizer"] = False
    elif roll < 0.1:
        args["intercept"] = None
    elif roll < 0.14:
        args["coeffs"] = None
    return args


def glued(ev, txt):
    """The name put in the place of an entity would become part of a longer word."""
    return any((e["s"] > 0 and txt[e["s"] - 1].isalnum()) or (e["e"] < len(txt) and txt[e["e"]].isalnum()) for e in ev["ents"])


def check(ctx):
    core.build()
    drv, rng = ctx.driver(), ctx.rng
    vec = ctx.prop == "C25"
    dump = os.path.join(ctx.dir, "behaviours.csv")
    ctx.model_check("ClassifierDesign", """SPECIFICATION Spec
CONSTANTS Letters = {"a", "b", "u", "z"} MaxText = %d Windows = {9, 0, 1, 2%s}
INVARIANTS C25_Counts C25_Pairs C25_UnknownWordsIgnored C25_UnitLength C25_LengthFixed C24_Listed C24_Complement C24_Best Export
CHECK_DEADLOCK FALSE
""" % (ctx.pick(3, 4), ctx.pick("", ", 3")), env={"DUMP": dump}, timeout=3000)
    behaviours = [json.loads(json.loads(l)) for l in open(dump)]
    ctx.notes["behaviours_generated"] = len(behaviours)
    for lang in ("en", "fr", "ja"):
        d = ctx.fresh_dir("res")
        res = M.resources(d, lang, clusters=CLUSTERS, stems=STEMS, custom=STEMMED_CUSTOM, builtin=gen.builtin_table(), builtin_gaz=gen.GAZ,
                          usage=rng.randint(0, 2), stop_words=STOP)
        r = drv.call("res_load", h="r-" + lang, **res)
        if r["r"] != "ok":
            raise core.ToolError(str(r))
    # the words of the design; they have no entity in them
    d = ctx.fresh_dir("res")
    r = drv.call("res_load", h="r-0", **M.resources(d, "en", custom={}, builtin=[], stop_words=["z"]))
    if r["r"] != "ok":
        raise core.ToolError(str(r))
    events, sources = [], []

    def add(pair):
        events.append(pair[0])
        sources.append(pair[1])

    behaviours.sort(key=lambda b: json.dumps([b["cfg"], b["text"]]))
    last, clf = None, None
    for b in behaviours:
        c = b["cfg"]
        if c != last:
            last = c
            clf = Clf(ctx, drv, "en", "r-0")
            rows = [[1.5, -2, 1, .5, -.75]] if c["one"] else [[1, 0, .25, -.5, 0], [0, 1, 0, 0, 3], [-1, -1, .5, .1, 0]]
            clf.args = dict(vocab={"a": 0, "b": 1}, idf=[1.0, 2.0], builtin_scope=[], tfidf_config={"use_stemming": False, "word_clusters_name": None},
                            cooc_scope=[], featurizer=True, coeffs=rows, intercept=[.1] if c["one"] else [0, -.5, .5],
                            intent_list=["i", None] if c["one"] else ["i", "j", None],
                            cooc={"word_pairs": {"0": ["a", "b"], "1": ["b", "a"], "2": ["a", "a"]}, "config": {
                                "window_size": None if c["window"] < 0 else c["window"], "filter_stop_words": c["filter"],
                                "keep_order": c["keep"], "unknown_words_replacement_string": "u"}})
            clf.cooc = clf.args["cooc"]
            r = clf.load()
            if r["r"] != "ok":
                raise core.ToolError("a classifier does not load: %r" % r)
        txt = " ".join(b["text"])
        if vec:
            ev = clf.vec(txt)
            ev[0]["stops"] = ["z"]
            add(ev)
        elif rng.random() < 0.5:
            add(clf.score(txt, [None, ["j"], []]))
    for n in range(ctx.pick(250, 2500)):
        lang = rng.choice(["en", "en", "fr", "ja"])
        clf = Clf(ctx, drv, lang, "r-" + lang)
        clf.args = random_args(rng, drv, lang)
        if vec:
            clf.args["featurizer"] = True
        clf.cooc = clf.args["cooc"] if clf.args["featurizer"] else None
        r = clf.load()
        if r["r"] != "ok":
            raise core.ToolError("a classifier does not load: %r %r" % (r, clf.args))
        for _ in range(10):
            txt = text(rng, 15)
            if rng.random() < 0.3 and txt:
                txt += rng.choice([" ", ", "]) + txt
            if rng.random() < 0.006:      # what counts comes last
                txt = "go the " * rng.choice([40, 70]) + txt
                if clf.cooc and clf.cooc["word_pairs"]:
                    txt += " " + " ".join(" ".join(rng.choice(list(clf.cooc["word_pairs"].values()))) for _ in range(4))
            if rng.random() < 0.1:
                txt = (txt + " " + rng.choice(LONG)).strip()
            if vec:
                pair = clf.vec(txt)
                if glued(pair[0], txt):
                    continue
                add(pair)
            else:
                known = [i for i in clf.args["intent_list"] if i]
                asks = [None, [], ["other"], rng.sample(known, rng.randint(0, len(known))), known]
                add(clf.score(rng.choice([txt] * 8 + ["", " ", "\t\n"]), rng.sample(asks, 3)))
    for ev in events[-50::10]:
        ctx.sample(json.dumps({k: ev[k] for k in (("toks", "got") if vec else ("text", "listing"))})[:300])
    ctx.judge("ClassifierTrace", events, sources)
    if vec:
        bad = [json.loads(json.dumps(ev)) for ev in events if ev["cooc"] and any(ev["got"]) and len(ev["got"]) > 1][-2:]
        bad[0]["got"][0] += 100
        bad[1]["got"] = bad[1]["got"][:-1]
    else:
        bad = [json.loads(json.dumps(ev)) for ev in events if len(ev["listing"]) > 2][-3:]
        bad[0]["listing"][0]["s"] -= 1000
        bad[1]["listing"] = bad[1]["listing"][1:]
        bad[2]["asked"][0]["got"]["s"] += 1
    ctx.demonstrate_binding("ClassifierTrace", events, bad)
