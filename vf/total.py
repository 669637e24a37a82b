"""Check of totality: C31. Whatever the text, every operation answers or refuses, and the engine stays usable."""
import json, os, random, shutil, time
from . import core, engine as en, features as ft, gen, models as M
from .lang import SEP, ORDER

FRAGMENTS = ["parsererror", "go", "new york", "two", " ", "\n", "\t", "\u00a0", "\u0000", "%", "%SNIPSNUMBER%", "%CITY%", ".", "(?P<group0>", "\\",
             "\"", "{0}", "\U0001f600", "\U0001f469\u200d\U0001f469\u200d\U0001f467", "caf\u00e9", "e\u0301", "\u0301", "\u0130", "\u1e9e\u00df", "\ufb01",
             "\u65e5\u672c", "\u05e9\u05dc\u05d5\u05dd", "\u202e", "\U0010ffff", "\ufeff", "group0", "SNIPS", "$^*", "\u3000", "10%", "\u01c5", "\r\n",
             "-", "\ue000", "\ue001", "makeCoffee", "\u0660", "\u1fb3", "\u0345", "_", "'", "the", "~none",
             "<pattern>", "<utterance>", "<value>", "<pattern>", "<utterance>", "<value>"]        # of the model
LONG = 50000


def spell(b, w):
    rng, t = w.rng, ""
    for x in b:
        f = FRAGMENTS[x["f"]]
        i = rng.choice(w.intents)
        u = rng.choice(w.utterances[i])
        if f == "<pattern>":
            f = " ".join(y if k == "w" else gen.placeholder(w.mapping[i][y]) for k, y in u)
        elif f == "<utterance>":
            f = " ".join(y if k == "w" else rng.choice(gen.entity_values(w.mapping[i][y]) + [gen.placeholder(w.mapping[i][y])]) for k, y in u)
        elif f == "<value>":
            f = rng.choice(gen.entity_values(rng.choice(sorted(w.mapping[i].values()) or ["drink"])))
        t += f * (2 ** x["n"])
    return t[:LONG]


def length(b):
    return sum(2 ** x["n"] for x in b)


def build(ctx, seed):
    """An engine of three parsers, with every kind of feature, and its parts."""
    rng = random.Random(seed)
    drv = ctx.driver()
    lang = ORDER[seed % len(ORDER)]
    d = ctx.fresh_dir("total")
    w = gen.World(rng, lang=lang, n_intents=3)
    det, look = w.deterministic(), w.lookup(lambda t: drv.call("tokenize", text=t, lang=lang)["v"])
    prob = w.probabilistic()
    for f in prob["fillers"].values():
        f["features"] = [ft.factory(rng, [k], rng.choice([[0], [-1, 0, 1], [-3, 2]]))[0] for k in sorted(set(ft.ALL)) if seed % 4 != 3 or "match" not in k]
        f["labels"] = ["O"] + sorted({m + s for m in ("B-", "I-", "L-", "U-") for s in f["mapping"]})
        f["weights"] = {"is_first:1": {M.b64(rng.choice(f["labels"])): 2.0}, "is_last:1": {M.b64(rng.choice(f["labels"])): 2.0},
                        "length:1": {M.b64(rng.choice(f["labels"])): 2.0}, "is_digit:1": {M.b64(rng.choice(f["labels"])): 3.0}}
    words = rng.sample(gen.WORDS, 6) + ["SNIPSNUMBER", "DRINK", "x"]
    if prob["clf"].get("vocab"):
        prob["clf"] = dict(prob["clf"], cooc={"word_pairs": {str(k): [rng.choice(words), rng.choice(words)] for k in range(1)},
                                              "config": {"window_size": 2, "filter_stop_words": True, "keep_order": True,
                                                         "unknown_words_replacement_string": "x"}},
                           tfidf_config={"use_stemming": True, "word_clusters_name": "brown"})
        prob["clf"]["coeffs"] = [row + [0.5] for row in prob["clf"]["coeffs"]] if prob["clf"].get("coeffs") else None
    res = dict(w.res(), gazetteers=ft.GAZ, clusters=ft.CLUSTERS, stems=ft.STEMS, stop_words=["the", "a"], usage=2, builtin_gaz=gen.GAZ)
    M.engine(d, lang, w.mapping, w.entities, [("look", lambda p: M.lookup(p, lang, **look)), ("det", lambda p: M.deterministic(p, lang, **det)),
                                              ("prob", lambda p: M.probabilistic(p, lang, **prob))], res=res)
    return d, w, look


class Site:
    def __init__(self, ctx, seed, env=None):
        self.ctx, self.seed = ctx, seed
        if ctx.drv is None or ctx.drv.dead:
            ctx.drv = core.Driver(memory=8)
        self.drv = ctx.drv
        self.d, self.w, self.look = build(ctx, seed)
        self.events, self.sources = [], []
        self.slots = max([len(x[2]) for x in self.look["utterances"]] or [0])
        j = lambda *x: os.path.join(self.d, *x)
        lang = self.w.lang
        for r in (dict(op="engine_load", h="e", path=self.d),
                  dict(op="res_load", h="r", resources=j("resources", lang), builtin=j("builtin_entity_parser"), custom=j("custom_entity_parser")),
                  dict(op="parser_load", h="p0", kind="lookup", path=j("look"), res="r"),
                  dict(op="parser_load", h="p1", kind="deterministic", path=j("det"), res="r"),
                  dict(op="parser_load", h="p2", kind="probabilistic", path=j("prob"), res="r"),
                  dict(op="clf_load", h="c", path=j("prob", "intent_classifier"), res="r"),
                  dict(op="sf_load", h="s", path=j("prob", "slot_filler_0"), res="r")):
            a = self.drv.send(r)
            if a["r"] != "ok":
                raise core.ToolError("%r: %r" % (r, a))

    def crowded(self, text):
        """The lookup parser tries every choice of as many entities as an utterance has slots (a known finding): not on such texts."""
        if "parsererror" in text:
            return len(text) > 300
        n = sum(len(self.drv.call(op, h="r", text=text, kinds=None, cache=False, sa=0).get("v") or []) for op in ("custom", "builtin"))
        k, ways = self.slots, 1
        for i in range(k):
            ways = ways * max(1, n - i) // (i + 1)
        return (ways + n) * (len(text) + 20) > 100000

    def requests(self, text, rng):
        shut = {"e", "p0"} if self.crowded(text) else set()
        if self.seed % 4 != 3 and len(text) > 300:      # looking entities up takes the square of the number of words
            shut |= {"e", "s", "p2"}
        for known, req in self.all_requests(text, rng):
            if req["h"] not in shut or not known:
                yield known, req

    def all_requests(self, text, rng):
        w = self.w
        intent = rng.choice(w.intents)
        slot = rng.choice(sorted(w.mapping[intent]) or [None])
        odd = rng.choice(["", "ghost", text, intent + "\u0000", intent.upper() + "X"])
        big = rng.choice([0, 1, 7, 2 ** 31, 2 ** 63, 2 ** 64 - 1])
        yield True, dict(op="parse", h="e", text=text)
        yield True, dict(op="parse", h="e", text=text, wl=[intent], ia=big, sa=big)
        yield True, dict(op="parse", h="e", text=text, bl=[intent], ia=3, sa=2)
        yield True, dict(op="get_intents", h="e", text=text)
        yield True, dict(op="get_slots", h="e", text=text, intent=intent, sa=big)
        if slot:
            yield True, dict(op="extract_slot", h="e", text=text, intent=intent, slot=slot, sa=big)
            if odd not in w.mapping[intent]:
                yield False, dict(op="extract_slot", h="e", text=text, intent=intent, slot=odd)
        if odd not in w.intents:
            yield False, dict(op="parse", h="e", text=text, wl=[odd])
            yield False, dict(op="get_slots", h="e", text=text, intent=odd)
            yield False, dict(op="extract_slot", h="e", text=text, intent=odd, slot=slot or "x")
        for p in "p0", "p1", "p2":
            yield True, dict(op="get_intents", h=p, text=text)
            yield True, dict(op="get_slots", h=p, text=text, intent=intent)
        yield True, dict(op="clf_intent", h="c", text=text, wl=rng.choice([None, [], [intent]]))
        yield True, dict(op="clf_intents", h="c", text=text)
        yield True, dict(op="clf_features", h="c", text=text)
        yield True, dict(op="sf_features", h="s", text=text)
        yield True, dict(op="get_slots", h="s", text=text)
        yield True, dict(op="custom", h="r", text=text, kinds=rng.choice([None, [], ["drink"], [odd]]), sa=big)
        yield True, dict(op="builtin", h="r", text=text, kinds=rng.choice([None, [], ["snips/number"]]), cache=True, sa=big)

    def ask(self, known, req, failing):
        r = self.drv.send(req)
        self.ctx.notes["calls"] = self.ctx.notes.get("calls", 0) + 1
        dead = self.drv.dead
        fn = req["op"] + ("-" + req["h"] if req["h"] != "e" else "")
        ev = {"op": "call", "fn": fn, "known": known, "failing": failing, "r": r["r"]}
        # accepted outcomes that were seen already are counted, not judged again
        self.events.append(ev)
        self.sources.append({"engine": "vf.total.build seed %d" % self.seed, "request": dict(req, text=req["text"][:2000]), "length": len(req["text"]),
                             "reply": json.dumps(r)[:500]})
        return r, dead

    def again(self, req, first):
        r = self.drv.send(req)
        a, b = answer(first), answer(r)
        self.events.append({"op": "again", "fn": req["op"], "first": a, "later": b})
        self.sources.append({"engine": "vf.total.build seed %d" % self.seed, "request": req, "replies": [first, r]})


def answer(r):
    from .lang import tidy
    return json.dumps(tidy(r), sort_keys=True)


def crowd(ctx):
    """A text of two hundred entities for an utterance of six slots."""
    d = ctx.fresh_dir("crowd")
    slots = ["s%d" % k for k in range(6)]
    M.engine(d, "en", {"i": {s: "drink" for s in slots}}, {"drink": True}, [("look", lambda p: M.lookup(
        p, "en", [("go " + " ".join(["%DRINK%"] * 6), "i", slots)],
        [{"intent_group": ["i"], "entity_scope": {"builtin": [], "custom": ["drink"]}}]))], res=dict(custom=gen.CUSTOM))
    text = "go " + " ".join(["tea", "coffee"] * 100)
    with core.Driver(timeout=4, memory=4) as drv:
        r = drv.call("engine_load", h="e", path=d)
        if r["r"] == "ok":
            r = drv.call("parse", h="e", text=text)
    return {"op": "call", "fn": "lookup-of-a-text-of-200-entities", "known": True, "failing": False, "r": r["r"]}, {"text": text, "reply": r}


def check(ctx):
    core.build()
    rng = ctx.rng
    n = len(FRAGMENTS)
    cfg = """SPECIFICATION %s
CONSTANTS Fragments = {%s} MaxLen = %d MaxDouble = %d MaxCalls = %d Reckless = %s
%s
CHECK_DEADLOCK FALSE
"""
    small = "0, 1, 2"
    inv = "INVARIANTS C31_Ends C31_Outcome C31_Usable"
    ctx.model_check("TotalDesign", cfg % ("Spec", small, 2, 1, 3, "FALSE", inv + "\nPROPERTIES C31_Answered"), timeout=3000)
    code, out, _, _ = ctx.tlc("TotalDesign", cfg % ("SpecReckless", small, 2, 1, 3, "TRUE", inv))
    if "is violated" not in out:
        raise core.ToolError("a reckless part went unnoticed:\n" + core.terse(out))
    dump = os.path.join(ctx.dir, "texts.csv")
    every = ", ".join(map(str, range(n)))
    ctx.model_check("TotalDesign", cfg % ("Spec", every, 2, 1, 2, "FALSE", inv + " Export"), env={"DUMP": dump}, timeout=3000)
    texts = [json.loads(json.loads(l)) for l in open(dump)]
    texts = [t for t in texts if all(x["n"] == 0 for x in t)]
    dump2 = os.path.join(ctx.dir, "long.csv")
    ctx.simulate("TotalDesign", cfg % ("Spec", every, ctx.pick(7, 9), 13, 1, "FALSE", inv + " Export"), env={"DUMP": dump2},
                 num=ctx.pick(400, 6000), depth=24)
    longer = [json.loads(json.loads(l)) for l in open(dump2)]
    ctx.notes["texts_generated"] = len(texts) + len(longer)
    sites = ctx.pick(4, 18)
    events, sources = [], []
    for s in range(sites):
        site, t0 = Site(ctx, ctx.seed * 100 + s), time.time()
        if s % 2 == 0:
            mine = [t for k, t in enumerate(texts) if len(t) < 2 or k % ctx.pick(2, 1) == s // 2 % ctx.pick(2, 1)]
        else:
            mine = [t for t in longer if length(t) < 60]
            mine = rng.sample(mine, min(len(mine), ctx.pick(400, 3000)))
            big = [t for t in longer if length(t) >= 60]
            mine += rng.sample(big, min(len(big), ctx.pick(20, 200)))
            if s % 4 == 3:                  # something to find far away
                far = [k for k, f in enumerate(FRAGMENTS) if f.startswith("<")]
                for _ in range(ctx.pick(10, 60)):
                    mine.append([{"f": rng.choice(far), "n": 0}, {"f": 4, "n": 0}, {"f": rng.choice([1, 4, 5, 8, 12, 17, 22]), "n": rng.choice([13, 14, 14, 15])},
                                 {"f": 4, "n": 0}, {"f": rng.choice(far), "n": 0}])
        firsts = []
        for req in [q for t in ("go two new york", "x", "caf\u00e9 noir") for k, q in site.requests(t, random.Random(7)) if k]:
            firsts.append((req, site.drv.send(req)))
        for b in mine:
            text = spell(b, site.w)
            reqs = list(site.requests(text, rng))
            if len(text) >= 300 or not ctx.thorough():
                reqs = rng.sample(reqs, min(len(reqs), (12 if len(text) > 9000 else 4) if len(text) >= 300 else 9))
            for known, req in reqs:
                _, dead = site.ask(known, req, "parsererror" in text.lower())
                if dead:
                    break
            if site.drv.dead:
                break
        if not site.drv.dead:
            for req, first in firsts:
                site.again(req, first)
        # values added with odd texts
        ctx.notes["seconds_site_%d" % s] = round(time.time() - t0, 1)
        for b in rng.sample(texts, ctx.pick(12, 80)) + rng.sample([t for t in longer if length(t) < 500], 4):
            if site.drv.dead:
                break
            v, e = spell(b, site.w), rng.choice(sorted(site.w.entities))
            d = ctx.fresh_dir("inj")
            shutil.copytree(site.d, d, dirs_exist_ok=True)
            drv = site.drv
            for fn, req in (("inject", dict(op="inject", path=d, values=[[e, v], [e, "fine"]], vanilla=rng.random() < 0.3)),
                            ("load", dict(op="engine_load", h="i", path=d)),
                            ("parse", dict(op="parse", h="i", text="go fine " + v))):
                if fn == "parse" and site.crowded(v):
                    continue
                r = drv.send(req)
                ok = fn == "inject" and not site.w.entities[e]
                site.events.append({"op": "call", "fn": fn + "-injected", "known": True, "failing": ok or "parsererror" in v, "r": r["r"]})
                site.sources.append({"engine": "vf.total.build seed %d" % site.seed, "entity": e, "value": v, "reply": r})
            shutil.rmtree(d)
        events += site.events
        sources += site.sources
        for h in ("e", "r", "p0", "p1", "p2", "c", "s", "i"):
            ctx.driver().call("drop", h=h)
        shutil.rmtree(site.d)
    for pair in [crowd(ctx)]:
        events.append(pair[0])
        sources.append(pair[1])
    # equal events are judged once
    seen, ev2, src2 = set(), [], []
    for e, s in zip(events, sources):
        k = json.dumps(e, sort_keys=True)
        if k not in seen:
            seen.add(k)
            ev2.append(e)
            src2.append(s)
    ctx.notes["calls_observed"] = len(events)
    for e, s in list(zip(events, sources))[::max(1, len(events) // 8)]:
        ctx.sample(json.dumps({"request": s.get("request"), "outcome": e.get("r")})[:300])
    ctx.judge("TotalTrace", ev2, src2)
    bad = [dict(next(e for e in ev2 if e["op"] == "call"), r="panic"), dict(next(e for e in ev2 if e["op"] == "call" and not e["known"]), r="ok"),
           dict(next(e for e in ev2 if e["op"] == "again"), later="other")]
    ctx.demonstrate_binding("TotalTrace", ev2, bad)
