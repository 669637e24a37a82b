"""Checks of injections into engine directories: C21 (values), C22 (refusals), C23 (interruptions)."""
import json, os, re, shutil, subprocess
from . import core, models as M

WORDS = ["coffee", "coffees", "black", "tea", "teas", "green", "york", "new", "caf\u00e9", "na\u00efve", "\u65e5\u672c", "42", "light", "lights"]
ODD = ["O'Neil", "rock'n'roll", "AC/DC", "R&B", "jean-luc", "what?", "new   york", " tea ", "Stra\u00dfe", "THE CAF\u00c9S", "e\u0301t\u0301", "a_b",
       "5\u20ac", "tea.", "..", "tea (green)", "\u0130zmir", "TEA \u0130N \u0130ZMIR"]
STEMS = {"coff": ["coffee", "coffees"], "te": ["tea", "teas"], "light": ["lights", "lighting"], "neil": ["neils"], "cafe": ["cafes"]}
BACK = {i: s for s, l in STEMS.items() for i in l}
CUSTOM = ["drink", "city", "room type", "b\u00e9b\u00e9"]
GAZ = ["snips/city", "snips/musicArtist", "snips/country"]
CFG = """%s
CONSTANTS Entities = {"d", "c"} Raws = {"x", "y"} Names = {"X", "Y"} Safe = %s MaxInjections = %d Usage = 2
%s
CHECK_DEADLOCK FALSE
"""
INVS = "INVARIANTS C23_Loads C23_OldOrNew C21_Done C21_Others C21_Found C21_Shared C21_TrainedRemain C21_Vanilla\nVIEW View"


def norm(w):
    import unicodedata
    return "".join(c for c in unicodedata.normalize("NFD", w.lower()) if not unicodedata.combining(c))


def stem(w):
    return BACK.get(norm(w), w)


class Site:
    """An engine directory, and what its entities were trained with."""

    def __init__(self, rng, drv, d, simple=False):
        self.rng, self.d, self.drv = rng, d, drv
        self.lang = rng.choice(["en", "fr", "de", "ja"])
        self.usage = rng.choice([0, 1, 1, 2, 2])
        self.custom = rng.sample(CUSTOM, 2 if simple else rng.randint(1, 3))
        self.gaz = rng.sample(GAZ, rng.randint(0, 2))
        e = rng.choice(self.custom)                            # declared, without values: a name of its own or nearly another's
        self.ghost = rng.choice(["ghost", e.title(), e[:-1], e + "s", e.upper()]) if rng.random() < 0.5 else None
        self.simple = simple
        trained = {}
        for e in self.custom + self.gaz:
            seen, vals = set(), []
            for _ in range(rng.randint(0, 4)):
                v = self.value(e, plain=e in self.gaz)
                for k in self.forms(e, v):
                    if k and tuple(k) not in seen:
                        seen.add(tuple(k))
                        vals.append((k, v.upper()))
            trained[e] = vals
        self.trained = trained
        names = {e: "s%d" % i for i, e in enumerate(self.custom + self.gaz)}
        self.slots = names
        self.stems = STEMS if self.usage != 1 or rng.random() < 0.5 else None
        self.paths = M.engine(
            d, self.lang, {"i": {s: e for e, s in names.items()}},
            {e: False for e in self.custom + ([self.ghost] if self.ghost else [])},
            [("det", lambda p: M.deterministic(p, self.lang, {"i": ["^go$"]}, {}, {"i": {s: e for e, s in names.items()}}))],
            res=dict(stems=self.stems, usage=self.usage, builtin=[],
                     custom={e: [(" ".join(k), r) for k, r in trained[e]] for e in self.custom},
                     builtin_gaz={e: [(" ".join(k), r) for k, r in trained[e]] for e in self.gaz} if self.gaz or rng.random() < 0.5 else None))
        for p in ("custom_entity_parser/parser", "builtin_entity_parser/gazetteer_entity_parser"):
            if rng.random() < 0.4 and os.path.exists(os.path.join(d, p)):
                self.rename_parsers(os.path.join(d, p))
        self.used = {e: {" ".join(k) for k, _ in trained[e]} for e in trained}
        for e in self.used:
            self.used[e].add("tea")

    def rename_parsers(self, p):
        """Directories of parsers named otherwise: nearly as one another, or as if values had been injected."""
        meta = os.path.join(p, "metadata.json")
        with open(meta) as f:
            m = json.load(f)
        base = self.rng.choice(["p", "parser_1", "Parser one", "\u00e9t\u00e9", "", "x_"])
        names = [base + "_injected" * k for k in range(0 if base else 1, 5)]
        for x, new in zip(m["parsers_metadata"], self.rng.sample(names, len(m["parsers_metadata"]))):
            os.rename(os.path.join(p, x["entity_parser"]), os.path.join(p, "new " + new))
            x["entity_parser"] = new
        for x in m["parsers_metadata"]:
            os.rename(os.path.join(p, "new " + x["entity_parser"]), os.path.join(p, x["entity_parser"]))
        with open(meta, "w") as f:
            json.dump(m, f)

    def value(self, e, plain=False):
        rng = self.rng
        if not plain and rng.random() < 0.35:
            return rng.choice(ODD)
        v = " ".join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2, 2, 3])))
        return rng.choice([v, v, v, v.title(), v.upper()]) if "\u00df" not in v else v

    def words(self, e, text):
        """The words of a text as the entity's parser sees them: [(word, start, end)]"""
        if e in self.gaz:
            return [(m.group().lower(), m.start(), m.end()) for m in re.finditer("[^ ]+", text)]
        return [(t["low"], t["s"], t["e"]) for t in self.drv.call("tokenize", text=text, lang=self.lang)["v"]]

    def low(self, e, v):
        return v.lower().split() if e in self.gaz else [w for w, _, _ in self.words(e, v)]

    def forms(self, e, v):
        low = self.low(e, v)
        if e in self.gaz or self.usage == 1:
            return [low]
        return [[stem(w) for w in low]] if self.usage == 0 else [low, [stem(w) for w in low]]

    def ents(self):
        return {e: {"builtin": e in self.gaz, "trained": [{"k": k, "r": r} for k, r in self.trained[e]]} for e in self.trained}

    # ------------------------------------------------------------ injections
    def pick_values(self, n=None):
        rng = self.rng
        out = []
        for e in rng.sample(self.custom + self.gaz, rng.randint(1, len(self.custom + self.gaz))):
            for _ in range(n or rng.choice([1, 1, 2, 3])):
                old = sorted(self.used[e])
                v = rng.choice(old) if old and rng.random() < 0.35 else self.value(e, plain=e in self.gaz)
                if e in self.gaz or rng.random() < 0.8:
                    v = rng.choice([v, v, v.title()]) if "\u00df" not in v else v
                out.append((e, v))
            if e not in self.gaz and rng.random() < 0.3:       # the stems of one are the other
                out += rng.sample([(e, "lights"), (e, "light"), (e, "lighting")], rng.randint(2, 3))
        return out

    def event_values(self, values):
        return [{"e": e, "v": {"low": self.low(e, v), "stem": [stem(w) for w in self.low(e, v)], "r": v}} for e, v in values]

    def ask(self, h):
        """Questions to the engine in the directory, loaded afresh."""
        rng, drv, asks = self.rng, self.drv, []
        r = drv.call("res_load", h=h, **self.paths)
        if r["r"] == "ok":
            r = drv.call("engine_load", h=h + "e", path=self.d)
        if r["r"] != "ok":
            return r["r"] + " " + json.dumps(r.get("chain", r))[:300], asks
        for e in self.trained:
            used = sorted(self.used[e])
            texts = rng.sample(used, min(len(used), 8))
            texts += [" ".join(rng.choice(used + WORDS) for _ in range(rng.randint(2, 3))) for _ in range(2)]
            texts += [" ".join(stem(w) for w in self.low(e, t)) for t in texts[:2]] + [rng.choice(texts).title().replace("Ss", "ss")]
            for t in texts:
                toks = [{"w": w, "s": a, "e": b} for w, a, b in self.words(e, t)]
                sa = rng.choice([0, 0, 1, 2, 9])                   # the other values that these words may be
                if e in self.gaz:
                    r = drv.call("builtin", h=h, text=t, kinds=[e], cache=rng.random() < 0.5, sa=sa)
                    got = [{"s": x["range"][0], "e": x["range"][1], "r": x["entity"]["value"],
                            "others": [y["value"] for y in x["alternatives"]]} for x in r.get("v", [])]
                else:
                    r = drv.call("custom", h=h, text=t, kinds=[e], sa=sa)
                    got = [{"s": x["range"][0], "e": x["range"][1], "r": x["resolved"], "others": x["alternatives"]} for x in r.get("v", [])]
                asks.append({"e": e, "via": "parser", "toks": toks, "got": got, "text": t, "sa": sa})
                if r["r"] != "ok":
                    return "asking-" + r["r"], asks
                if rng.random() < 0.3:
                    r = drv.call("extract_slot", h=h + "e", intent="i", slot=self.slots[e], text=t)
                    if r["r"] != "ok":
                        return "asking-" + r["r"], asks
                    v = r["v"]
                    v = v if isinstance(v, list) else [v] if v else []
                    asks.append({"e": e, "via": "slot", "toks": toks, "text": t,
                                 "got": [{"s": 0, "e": 0, "r": x["value"]["value"], "others": []} for x in v], "sa": 0})
        return "ok", asks


def tree(d):
    out = {}
    for top, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.join(top, x)] = None
        for f in files:
            with open(os.path.join(top, f), "rb") as fh:
                out[os.path.join(top, f)] = fh.read()
    return out


class Runner:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.shim = os.path.join(ctx.dir, "shim.so")
        p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", self.shim,
                            os.path.join(core.VERIF, "harness", "shim.c"), "-ldl"], capture_output=True, text=True)
        if p.returncode:
            raise core.ToolError("gcc: " + p.stderr[-2000:])
        self.faults = {}

    def inject(self, site, values, vanilla, drv, path=None, res=None):
        kw = {"res": res} if res else {}
        r = drv.call("inject", path=path or site.d, vanilla=vanilla, values=[[e, v] for e, v in values], **kw)
        shown = (r.get("top") or "")
        if r["r"] == "err" and not shown.startswith("INJ "):
            shown = next((c for c in r["chain"] if c.startswith("INJ ")), shown)
        kind = shown.split(" ")[1] if shown.startswith("INJ ") else "other"
        if r["r"] == "died" and r["code"] != 77:
            r = {"r": "crashed"}
        return r["r"], shown, kind

    def under_shim(self, site, mode, n, values, vanilla, path):
        control = os.path.join(self.ctx.dir, "control")
        if os.path.exists(control):
            os.unlink(control)
        with core.Driver(env={"LD_PRELOAD": self.shim, "VERIF_SHIM": "%s:%d:%s:%s" % (mode, n, control, path)}) as drv:
            drv.call("ping")
            open(control, "w").write("0")
            out = self.inject(site, values, vanilla, drv, path)
            drv.call("ping")
            said = open(control).read()
        return out, int(said or 0)

    def steps_of(self, site, values, vanilla):
        """The number of changes an injection makes, from a rehearsal in a copy."""
        copy = os.path.join(self.ctx.dir, "copy")
        shutil.copytree(site.d, copy)
        (r, _, _), n = self.under_shim(site, "count", 0, values, vanilla, copy)
        shutil.rmtree(copy)
        return n if r == "ok" else 0

    def step(self, site, values, vanilla=False, expect="done", refuse=(), n=None, mode="kill", worn=False, res=None):
        """One injection and the questions that follow."""
        rng = self.rng
        before = tree(site.d)
        st = {"expect": expect, "values": site.event_values([x for x in values if x[0] in site.trained]), "vanilla": vanilla,
              "refuse": list(refuse), "worn": worn}
        if expect in ("killed", "fails") and mode != "script":
            if n is None:
                total = self.steps_of(site, values, vanilla)
                n = rng.randint(1, max(total, 1))
            (st["r"], shown, st["kind"]), _ = self.under_shim(site, mode, n, values, vanilla, site.d)
            st["fault"] = "%s:%d" % (mode, n)
            self.faults[mode] = self.faults.get(mode, 0) + 1
        else:
            st["r"], shown, st["kind"] = self.inject(site, values, vanilla, site.drv, res=res)
        st["named"] = [x for x in st["refuse"] if "'%s'" % x in shown]
        st["shown"] = shown
        st["same"] = before == tree(site.d)
        for e, v in values:
            if e in site.used and "error" not in v:
                site.used[e].add(v)
        st["load"], st["asks"] = ("ok", []) if expect == "unreadable" else site.ask("q")
        return st


def finish_story(site, steps):
    return {"op": "story", "usage": site.usage, "ents": site.ents(), "steps": steps}


def check(ctx):
    core.build()
    rng = ctx.rng
    run = Runner(ctx)
    ctx.model_check("InjectionDesign", CFG % ("SPECIFICATION SafeSpec", "TRUE", ctx.pick(1, 2), INVS))
    ctx.refute("InjectionDesign", CFG % ("SPECIFICATION Spec", "FALSE", 1, "INVARIANTS C23_Loads"), "C23_Loads", "the unsafe design of injections")
    dump = os.path.join(ctx.dir, "stories.csv")
    ctx.simulate("InjectionDesign", CFG % ("SPECIFICATION SimSpec", "TRUE", 3, "INVARIANT Export"), env={"DUMP": dump},
                 num=ctx.pick(150, 1500), depth=60)
    stories = [json.loads(json.loads(x) if x.startswith('"') else x) for x in sorted({x.strip() for x in open(dump)})]
    rng.shuffle(stories)
    events, sources = [], []

    def done(site, steps, what):
        events.append(finish_story(site, steps))
        sources.append({"what": what, "steps": [{k: s.get(k) for k in ("expect", "fault", "values", "vanilla", "shown", "load")} for s in steps]})
        shutil.rmtree(site.d, ignore_errors=True)

    def site(simple=False):
        return Site(rng, ctx.driver(), ctx.fresh_dir("site"), simple)

    {"C21": check_values, "C22": check_refusals, "C23": check_interruptions}[ctx.prop](ctx, run, site, done, stories)
    if len(events) < 20:
        raise core.ToolError("only %d stories" % len(events))
    ctx.notes["stories"] = len(events)
    ctx.notes["injections"] = sum(len(e["steps"]) for e in events)
    ctx.notes["questions"] = sum(len(s["asks"]) for e in events for s in e["steps"])
    ctx.notes["entities_found"] = sum(len(a["got"]) for e in events for s in e["steps"] for a in s["asks"])
    ctx.notes["interruptions"] = run.faults
    for e in events[:3]:
        ctx.sample(json.dumps(e)[:400])
    ctx.judge("InjectionTrace", events, sources)
    corrupt(ctx, events)


def corrupt(ctx, events):
    out = []
    good = next(e for e in events if any(a["got"] for s in e["steps"] for a in s["asks"]))
    x = json.loads(json.dumps(good))
    a = next(a for s in x["steps"] for a in s["asks"] if a["got"])
    a["got"][0]["r"] = "other"
    out.append(x)
    for field, value in (("load", "err"), ("r", "panic")):
        x = json.loads(json.dumps(good))
        x["steps"][-1][field] = value
        if x["steps"][-1]["expect"] not in ("refused", "unreadable") or field == "r":
            out.append(x)
    ref = [e for e in events if e["steps"][-1]["expect"] == "refused"]
    if ref:
        x = json.loads(json.dumps(ref[0]))
        x["steps"][-1]["same"] = False
        out.append(x)
    ctx.demonstrate_binding("InjectionTrace", events, out)


# ------------------------------------------------------------------ stories
NAMES = {"x": ["tea", "new york", "O'Neil"], "y": ["coffees", "caf\u00e9", "AC/DC"]}


def replay(ctx, run, site, story):
    """A behaviour of the design, in a real directory: entities d and c are two of its entities."""
    rng = ctx.rng
    who = dict(zip("dc", site.custom))
    if site.gaz and rng.random() < 0.3:
        who["c"] = site.gaz[0]
    raws = {k: rng.choice(v) for k, v in NAMES.items()}
    steps, worn = [], False
    for h in story:
        values = []
        for v in h["v"]:
            e, raw = who[v["e"]], raws[v["v"]["low"][0]]
            if e in site.gaz:
                raw = raw.replace("'", "").replace("/", "")
            values.append((e, raw.upper() if v["v"]["r"] == "Y" else raw))
        if h["end"] == "refused":
            bad = rng.choice(["nowhere", "snips/number", "snips/region"])
            st = run.step(site, values + [(bad, "tea")], h["vanilla"], "refused", [bad], worn=worn)
        elif h["end"] == "crash":
            st = run.step(site, values, h["vanilla"], "killed", mode=rng.choice(["kill", "torn"]), worn=worn)
            worn = True
        else:
            st = run.step(site, values, h["vanilla"], worn=worn)
        steps.append(st)
    return steps


def check_values(ctx, run, site, done, stories):
    rng = ctx.rng
    for h in [s for s in stories if all(x["end"] != "crash" for x in s)][:ctx.pick(20, 150)]:
        s = site(True)
        done(s, replay(ctx, run, s, h), h)
    for _ in range(ctx.pick(2, 10)):                # hundreds of values at once
        s = site(True)
        e = rng.choice(s.custom)
        many = [(e, "tea %d" % k) for k in range(rng.choice([120, 600]))]
        done(s, [run.step(s, many, rng.random() < 0.3), run.step(s, s.pick_values())], "many values")
    for _ in range(ctx.pick(1, 5)):                 # many times over
        s = site(True)
        done(s, [run.step(s, s.pick_values(1), rng.random() < 0.05) for _ in range(40)], "many injections")
    for _ in range(ctx.pick(110, 900)):
        s = site()
        steps = []
        for _ in range(rng.randint(1, 5)):
            if rng.random() < 0.08:
                steps.append(run.step(s, []))
                continue
            if rng.random() < 0.3:
                r = s.drv.call("res_load", h="given", **s.paths)
                res = "given" if r["r"] == "ok" else None
            else:
                res = None
            steps.append(run.step(s, s.pick_values(), rng.random() < 0.3, res=res))
        done(s, steps, "random")


def damages(s):
    """Damages after which an engine cannot be read: (what, path, new content or None, also with resources given)"""
    out = [(n, os.path.join(s.d, f), c, g) for n, f, c, g in [
        ("no model", "nlu_engine.json", None, True), ("garbage model", "nlu_engine.json", b"{", True),
        ("empty model", "nlu_engine.json", b"{}", True), ("no builtin metadata", "builtin_entity_parser/metadata.json", None, True),
        ("garbage builtin metadata", "builtin_entity_parser/metadata.json", b"[]x", True),
        ("no custom metadata", "custom_entity_parser/metadata.json", None, True),
        ("custom metadata of another type", "custom_entity_parser/metadata.json", b'{"language":"en","parser_directory":3,"parser_usage":1}', True),
        ("custom usage unknown", "custom_entity_parser/metadata.json", b'{"language":"en","parser_directory":"parser","parser_usage":3}', True),
        ("no custom parser metadata", "custom_entity_parser/parser/metadata.json", None, True),
        ("garbage custom parser metadata", "custom_entity_parser/parser/metadata.json", b"\xff", True),
        ("no resources", "resources/%s/metadata.json" % s.lang, None, False),
        ("garbage resources", "resources/%s/metadata.json" % s.lang, b"{", False)]]
    if s.stems:
        out.append(("no stems file", os.path.join(s.paths["resources"], "stemming", "stems.txt"), None, False))
    if s.gaz:
        out.append(("no builtin parser metadata", os.path.join(s.d, "builtin_entity_parser/gazetteer_entity_parser/metadata.json"), None, True))
    return out


def check_refusals(ctx, run, site, done, stories, share=1):
    rng = ctx.rng
    for h in [s for s in stories if any(x["end"] == "refused" for x in s) and all(x["end"] != "crash" for x in s)][:ctx.pick(15, 150)]:
        s = site(True)
        done(s, replay(ctx, run, s, h), h)
    for _ in range(int(share * ctx.pick(50, 500))):
        s = site()
        steps = []
        if rng.random() < 0.4:
            steps.append(run.step(s, s.pick_values(), rng.random() < 0.3))
        for _ in range(rng.randint(1, 3)):
            bad = ["nowhere", "snips/number", "snips/datetime", "snips/nothing", "", "Drink", "i", "s0"] + \
                [g for g in GAZ if g not in s.gaz] + ([s.ghost] * 3 if s.ghost else [])
            bad = rng.sample(bad, rng.choice([1, 1, 1, 2]))
            values = (s.pick_values() if rng.random() < 0.8 else []) + [(b, "tea") for b in bad]
            rng.shuffle(values)
            steps.append(run.step(s, values, rng.random() < 0.3, "refused", bad))
        steps.append(run.step(s, s.pick_values()))
        done(s, steps, "refusals")
    for _ in range(int(share * ctx.pick(40, 400))):
        s = site()
        values = s.pick_values()
        what, path, content, given = rng.choice(damages(s))
        res = None
        if given and rng.random() < 0.4 and s.drv.call("res_load", h="given", **s.paths)["r"] == "ok":
            res = "given"
        roll = rng.random()
        if roll < 0.3:                              # the data of an entity to inject
            e = rng.choice(values)[0]
            where = (os.path.join(s.d, "builtin_entity_parser/gazetteer_entity_parser") if e in s.gaz else
                     os.path.join(s.d, "custom_entity_parser/parser"))
            meta = json.load(open(os.path.join(where, "metadata.json")))
            sub = next(m["entity_parser"] for m in meta["parsers_metadata"] if m["entity_identifier"] == e)
            path = os.path.join(where, sub, rng.choice(["metadata.json", "parser"]))
            what, content = "data of %s" % e, rng.choice([None, b"", b"{", b"\xff\xff"])
            if s.drv.call("res_load", h="given", **s.paths)["r"] == "ok" and rng.random() < 0.7:
                res = "given"
        elif roll < 0.4 and s.usage != 1 and any(e in s.custom for e, _ in values):    # stems are needed, and there are none
            path = os.path.join(s.paths["resources"], "metadata.json")
            what, content, res = "no stemmer", json.dumps({"language": s.lang}).encode(), None
        if content is None:
            os.unlink(path)
        else:
            open(path, "wb").write(content)
        st = run.step(s, values, rng.random() < 0.3, "unreadable", res=res)
        done(s, [st], what)
    s = site()
    s.d += "-nowhere"
    st = run.step(s, s.pick_values(), False, "unreadable")
    done(s, [st], "no directory")


def check_interruptions(ctx, run, site, done, stories):
    rng = ctx.rng
    for h in [s for s in stories if any(x["end"] == "crash" for x in s)][:ctx.pick(25, 250)]:
        s = site(True)
        done(s, replay(ctx, run, s, h), h)
    # every change of an injection, in every way
    for k in range(ctx.pick(2, 12)):
        proto = site(True)
        values = proto.pick_values(1)
        if k == 0:
            values = [(e, "new tea") for e in proto.custom]
        steps0 = [run.step(proto, proto.pick_values(1))] if k % 2 else []
        vanilla = rng.random() < 0.3
        total = run.steps_of(proto, values, vanilla)
        if total < 4:
            raise core.ToolError("an injection makes %d changes" % total)
        ctx.notes["changes_of_an_injection"] = total
        saved = proto.d + "-saved"
        shutil.copytree(proto.d, saved)
        for n in range(1, total + 1):
            for mode in ("kill", "torn", "fail"):
                shutil.rmtree(proto.d)
                shutil.copytree(saved, proto.d)
                steps = list(steps0) + [run.step(proto, values, vanilla, "fails" if mode == "fail" else "killed", n=n, mode=mode)]
                if rng.random() < 0.5:              # then the same again
                    steps.append(run.step(proto, rng.choice([values, proto.pick_values(1)]), False, worn=True))
                done(proto, steps, "%s:%d of %d" % (mode, n, total))
                os.makedirs(proto.d, exist_ok=True)
        shutil.rmtree(proto.d, ignore_errors=True)
        shutil.rmtree(saved)
    # failures of the parsers themselves
    for _ in range(ctx.pick(12, 100)):
        s = site()
        values = s.pick_values()
        e, _ = rng.choice(values)
        bad = (e, "tea " + rng.choice(["injecterror", "dumperror"]))
        values.insert(rng.randint(0, len(values)), bad)
        steps = [run.step(s, values, rng.random() < 0.3, "fails", mode="script")]
        steps.append(run.step(s, s.pick_values(1), False, worn=True))
        done(s, steps, "failing parser")
