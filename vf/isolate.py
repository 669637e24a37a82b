"""Engines next to each other in one process, and what happens to their files after loading: C35."""
import json, os, random, shutil, zipfile
from . import core, engine, gen, models as M
from .history import outcome, random_request

CFG = """SPECIFICATION Spec
CONSTANTS Handles = {%s} Places = {"x", "y"} Models = {"a", "b"} MaxSteps = %d Mode = "%s"
INVARIANTS C35_OwnContent C35_Apart %s
%s
VIEW View
CHECK_DEADLOCK FALSE
"""
INJECTED = "zorglub"


class Twins:
    """Two models that look alike (names, parsers) and differ inside, with or without injected values."""
    kept = 5

    def __init__(self, ctx, d, drv):
        rng = ctx.rng
        names = rng.sample(["makeCoffee", "bookFlight", "setLight", "play", "intent \u00e9"], 3)
        kinds = rng.choice([["det", "look", "prob"], ["prob"], ["det", "prob"], ["look", "det"], ["prob", "det"]])
        lang = rng.choice(["en", "fr", "de", "ja"])
        self.dirs, worlds = {}, []
        only_words = rng.random() < 0.25            # nothing but the stop words differs
        if only_words:
            kinds = rng.choice([["det"], ["look"], ["det", "look"], ["look", "det", "prob"]])
        for c in "ab":
            w = gen.World(rng, lang=lang, names=names, n_intents=3, stop=True if only_words else None)
            if c == "b":
                plain = w.res
                w.res = lambda plain=plain: dict(plain(), custom={e: [(v, r + " of b") for v, r in l][::-1] for e, l in gen.CUSTOM.items()})
            if worlds and rng.random() < 0.6:       # the same slots and utterances: only the values differ
                w.mapping, w.utterances, w.stop_whitelist, w.stop_words = (worlds[0].mapping, worlds[0].utterances,
                                                                           worlds[0].stop_whitelist, worlds[0].stop_words)
            self.dirs[c] = os.path.join(d, "model-" + c)
            if only_words and worlds:
                shutil.copytree(self.dirs["a"], self.dirs[c])
                l = os.path.join(self.dirs[c], "resources", lang, "stop_words.txt")
                words = open(l, encoding="utf-8").read().split("\n")
                with open(l, "w", encoding="utf-8") as f:
                    f.write("\n".join([x for x in gen.WORDS[:12] if x not in words][:6]))
                worlds.append(worlds[0])
                continue
            worlds.append(w)
            engine.random_engine(rng, self.dirs[c], drv, w=w, kinds=kinds)
        self.values = [[e, INJECTED] for e in gen.CUSTOM]
        self.requests = []
        for n in range(16):
            w = rng.choice(worlds)
            t = w.text(clean=rng.random() < 0.8)
            if rng.random() < 0.4 and t.split():
                ws = t.split()
                ws[rng.randrange(len(ws))] = INJECTED
                t = " ".join(ws)
            if rng.random() < 0.3:
                t = "%s %s" % (t, rng.choice(gen.STOP + gen.WORDS[:12]))
            q = random_request(rng, w, t)
            q.pop("wl", None), q.pop("bl", None)
            self.requests.append(q)
        for w in worlds:                            # the whole of the entities
            i = rng.choice(w.intents)
            for s in sorted(w.mapping[i])[:1]:
                vs = gen.entity_values(w.mapping[i][s])
                self.requests.append({"op": "extract_slot", "text": "%s %s" % (rng.choice(vs), INJECTED), "intent": i, "slot": s, "sa": 2})
        self.finish(d, drv, rng)

    def finish(self, d, drv, rng):
        for c in "ab":
            self.dirs[c + "+"] = os.path.join(d, "model-%sx" % c)
            shutil.copytree(self.dirs[c], self.dirs[c + "+"])
            r = drv.call("inject", path=self.dirs[c + "+"], vanilla=False, values=self.values)
            if r["r"] != "ok":
                raise core.ToolError("injection: %r" % r)
        self.alone = {}
        for c, p in self.dirs.items():              # a process that never sees anything else
            with core.Driver() as own:
                r = own.call("engine_load", h="e", path=p)
                if r["r"] != "ok":
                    raise core.ToolError("%s: %r" % (p, r))
                self.alone[c] = self.ask(own, "e")
        # the questions that tell the contents apart, and two others
        told = sorted(rng.sample(range(len(self.requests)), len(self.requests)), key=lambda k: -len({self.alone[c][k] for c in self.alone}))
        keep = told[:self.kept] + rng.sample(told[self.kept:], 2)
        self.requests = [self.requests[k] for k in keep]
        self.alone = {c: [l[k] for k in keep] for c, l in self.alone.items()}

    def ask(self, drv, h):
        return [outcome(drv.send(dict(q, h=h))) for q in self.requests]


PARTS = ["stop words", "stems", "gazetteer", "clusters", "builtin entities", "builtin values", "values", "tags", "scores",
         "vocabulary", "table", "patterns", "data set", "mapping", "filler", "weights"]
ABC = ["alpha", "beta", "gamma", "delta"]


def rich(d, lang, other):
    """A model that shows each of its parts in its answers; those in `other` have a second content."""
    pick = lambda part, a, b: b if part in other else a
    one = lambda part, *l: pick(part, l[0], l[1] if len(l) > 1 else ABC[1 - ABC.index(l[0])])
    feat = lambda kind, **args: [{"factory_name": kind, "offsets": [0], "args": args}]
    tag = {M.b64("B-s"): 8.0}
    ngram = lambda **kw: feat("ngram", n=1, **dict(dict(use_stemming=False, common_words_gazetteer_name=None), **kw))
    filler = lambda features, weights, **kw: dict(dict(mapping={"s": "thing"}, features=features, labels=["O", "B-s"], weights=weights), **kw)
    fillers = {
        "gazetteer": filler(ngram(common_words_gazetteer_name="top"), {"ngram_1:alpha": tag, "ngram_1:beta": tag}),
        "clusters": filler(feat("word_cluster", cluster_name="brown", use_stemming=False), {"word_cluster_brown:c1": tag}),
        "stems": filler(ngram(use_stemming=True), {"ngram_1:omega": tag}),
        "values": filler(feat("entity_match", entities=["thing"], tagging_scheme_code=1, use_stemming=False), {"entity_match_thing:B-": tag, "entity_match_thing:U-": tag}),
        "builtin entities": filler(feat("builtin_entity_match", entity_labels=["snips/number"], tagging_scheme_code=1),
                                   {"builtin_entity_match_snips/number:B-": tag, "builtin_entity_match_snips/number:U-": tag}),
        "tags": filler(ngram(), {"ngram_1:" + one("tags", "alpha"): tag}),
        "filler": filler(ngram(), {"ngram_1:gamma": tag}, mapping={pick("filler", "s", "t"): "thing"}, labels=["O", pick("filler", "B-s", "B-t")]),
    }
    if "filler" in other:
        fillers["filler"]["weights"] = {"ngram_1:gamma": {M.b64("B-t"): 8.0}}
    intents = sorted(fillers) + ["rules", "table"]
    slots = {i: {"s": "thing", "t": "thing", "n": "snips/number", "c": "snips/city"} for i in intents}
    slots["rules"] = {"n": pick("mapping", "snips/number", "snips/city")}
    slots["table"] = {}
    vocab = {"alpha": 0, "beta": 1, "c1": 2, "omega": 3}
    if "vocabulary" in other:
        vocab = {"alpha": 1, "beta": 0, "c1": 2, "omega": 3}
    known = intents
    fillers.update({i: dict(model=False) for i in ("rules", "table")})
    coeffs = [[(k + 1) * x * (-1) ** (n + k) for n, x in enumerate([0.5, 0.25, 0.125, 0.4])] for k in range(len(known))]
    res = dict(
        stop_words=[one("stop words", "please", "kindly")], gazetteers={"top": [one("gazetteer", "alpha")]},
        clusters={"brown": {one("clusters", "alpha"): "c1", one("clusters", "beta"): "c2"}},
        stems={"omega": [one("stems", "alpha")]}, custom={"thing": [(one("values", "alpha"), "found " + one("values", "alpha"))]},
        builtin=[{"phrase": pick("builtin entities", "two", "three"), "kind": "snips/number", "value": {"kind": "Number", "value": 2.0}, "alternatives": []}],
        builtin_gaz={"snips/city": [(pick("builtin values", "paris", "rome"), "P")]})
    M.engine(d, lang, slots, {"thing": pick("data set", True, False)}, [
        ("rules", lambda p: M.deterministic(p, lang, {**{i: [] for i in intents}, "rules": ["^\\s*%s\\s*(?P<group0>%%SNIPSNUMBER%%)\\s*$" % pick("patterns", "go", "come")]},
                                            {"group0": "n"}, {**{i: {} for i in intents}, "rules": {"n": "snips/number"}}, ignore_stop_words=True, stop_whitelist={})),
        ("look", lambda p: M.lookup(p, lang, [(pick("table", "turn on", "turn off"), "table", [])],
                                    [{"intent_group": intents, "entity_scope": {"builtin": [], "custom": []}}], intents=intents)),
        ("prob", lambda p: M.probabilistic(p, lang, dict(
            intent_list=known, intercept=[pick("scores", 0.1, 0.3) * k for k in range(len(known))], coeffs=coeffs, vocab=vocab,
            idf=pick("weights", [1.0, 2.0, 3.0, 1.5], [3.0, 1.0, 2.0, 0.5]), tfidf_config={"use_stemming": True, "word_clusters_name": "brown"}),
            fillers))], res=res)
    words = "alpha beta gamma delta two three paris rome " + INJECTED
    ask = [{"op": "get_slots", "text": words, "intent": i, "sa": 1} for i in known[:-2]]
    ask += [{"op": "parse", "text": t, "ia": 9, "sa": 1} for t in ("go two", "come two", "please go two", "kindly go two", "turn on", "turn off", "alpha", "beta alpha")]
    ask += [{"op": "get_intents", "text": t} for t in ("alpha", "alpha beta beta")]
    ask += [{"op": "extract_slot", "text": words, "intent": i, "slot": s, "sa": 1} for i, s in (("tags", "s"), ("tags", "n"), ("tags", "c"), ("rules", "n"))]
    return ask


class PartTwins(Twins):
    """Two models that differ in one of their parts, or in all."""
    turn, kept = 0, 7

    def __init__(self, ctx, d, drv):
        rng = ctx.rng
        k = PartTwins.turn
        PartTwins.turn += 1
        if k == 0:
            PartTwins.order = rng.sample(PARTS, len(PARTS))
        self.parts = PARTS if k % 6 == 0 else PartTwins.order[k * 3 % len(PARTS):][:3]
        lang = rng.choice(["en", "fr", "de"])
        self.dirs = {c: os.path.join(d, "model-" + c) for c in "ab"}
        self.requests = rich(self.dirs["a"], lang, [])
        rich(self.dirs["b"], lang, self.parts)
        self.values = [["thing", INJECTED]]
        self.finish(d, drv, rng)


def clear(drv, handles):
    for h in handles:
        drv.call("drop", h=h)


def put(src, dst):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)


def archive(d, path):
    with zipfile.ZipFile(path, "w") as z:
        for base, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                p = os.path.join(base, f)
                z.write(p, os.path.join("engine", os.path.relpath(p, d)))


def side_by_side(ctx, events, sources, spare):
    """Threads that load, ask, inject and drop, each with an engine and a place of its own: C35_Apart says that each thread is
    a history by itself."""
    rng, drv = ctx.rng, core.Driver(env={"VERIF_JITTER_US": "400"}, timeout=60)
    for k in range(ctx.pick(6, 60)):
        base = ctx.fresh_dir("side")
        site = (PartTwins if k % 2 else Twins)(ctx, base, spare)
        for again in range(3):
            nt = rng.choice([2, 4, 6])
            lists, plans = [], []
            for t in range(nt):
                c, place, h = rng.choice("ab"), os.path.join(base, "mine-%d-%d" % (again, t)), "h%d" % t
                put(site.dirs[c], place)
                zips = {}
                for x in (c, c + "+"):
                    zips[x] = os.path.join(base, "mine-%d-%d%s.zip" % (again, t, x))
                    archive(site.dirs[x], zips[x])
                plan, now = [("put", c)], c
                for step in range(rng.randint(2, 4)):
                    if rng.random() < 0.35 and now == c:
                        plan.append(("inject", None))
                        now = c + "+"
                    plan.append((rng.choice(["load", "loadzip", "loadzip"]), zips[now]))
                    plan.append(("ask", None))
                plans.append(plan)
                l = []
                for a, x in plan[1:]:
                    l += {"inject": [{"op": "inject", "path": place, "vanilla": False, "values": site.values}],
                          "load": [{"op": "engine_load", "h": h, "path": place}],
                          "loadzip": [{"op": "engine_zip", "h": h, "path": x}],
                          "ask": [dict(q, h=h) for q in site.requests]}[a]
                lists.append(l)
            r = drv.send({"op": "threads", "threads": lists})
            if r["r"] != "ok":
                events.append({"handles": ["g"], "places": ["x"], "alone": site.alone, "steps": [
                    {"act": "put", "h": "none", "p": "x", "c": "a", "r": "ok", "got": ""},
                    {"act": "load", "h": "g", "p": "x", "c": "none", "r": r["r"], "got": ""}]})
                sources.append({"threads": lists, "reply": r})
                drv.close()
                drv = core.Driver(env={"VERIF_JITTER_US": "400"}, timeout=60)
                continue
            for plan, got in zip(plans, r["v"]):
                steps, at = [], 0
                for a, x in plan:
                    e = {"act": a, "h": "g" if a in ("load", "loadzip", "ask") else "none", "p": "none" if a == "ask" else "x",
                         "c": x if a == "put" else "none", "r": "ok", "got": ""}
                    if a == "ask":
                        e["got"] = [outcome(y) for y in got[at:at + len(site.requests)]]
                        at += len(site.requests)
                    elif a != "put":
                        e["r"] = got[at]["r"]
                        at += 1
                    steps.append(e)
                    if a in ("load", "loadzip") and e["r"] != "ok":
                        break
                events.append({"handles": ["g"], "places": ["x"], "steps": steps, "alone": site.alone})
                sources.append({"history": steps, "requests": site.requests, "alone": site.alone, "beside": nt - 1})
                ctx.notes["histories_side_by_side"] = ctx.notes.get("histories_side_by_side", 0) + 1
        shutil.rmtree(base, ignore_errors=True)
    drv.close()


def check(ctx):
    core.build()
    rng, drv = ctx.rng, ctx.driver()
    dump = os.path.join(ctx.dir, "histories.csv")
    ctx.model_check("IsolationDesign", CFG % ('"g", "h"', ctx.pick(7, 8), "own", "Export", "PROPERTIES C35_HeldSinceLoad"),
                    env={"DUMP": dump}, timeout=3000)
    for mode in ("late", "place", "last"):
        ctx.refute("IsolationDesign", CFG % ('"g", "h"', 6, mode, "", ""), "C35_OwnContent", "the design '%s'" % mode)
    todo = [json.loads(json.loads(l) if l.startswith('"') else l) for l in sorted({x.strip() for x in open(dump)})]
    # more than one question in a history, asked again at the end
    ctx.notes["histories_of_the_design"] = len(todo)
    rng.shuffle(todo)
    todo.sort(key=lambda h: -len({(a["act"], a["p"]) for a in h}))
    n, events, sources, site = ctx.pick(200, 3000), [], [], None
    chosen = todo[:n // 2] + rng.sample(todo[n // 2:], min(n // 2, max(0, len(todo) - n // 2)))
    spare = core.Driver()
    for k, hist in enumerate(chosen):
        if k % 10 == 0:
            base = ctx.fresh_dir("twins")
            site = (PartTwins if k // 10 % 2 else Twins)(ctx, base, spare)
            places = {p: os.path.join(base, "place-" + p) for p in "xy"}
        for p in places.values():
            shutil.rmtree(p, ignore_errors=True)
        clear(drv, "gh")
        steps, live, there = [], set(), set()

        def note(a, r, got=""):
            if a["act"] in ("load", "loadzip") and a["p"] in there:
                (live.add if r["r"] == "ok" else live.discard)(a["h"])
            steps.append({"act": a["act"], "h": a["h"], "p": a["p"], "c": a["c"], "r": r["r"], "got": got})

        def question(h):
            if h not in live:
                return                              # its loading failed, which the trace says already
            got = site.ask(drv, h)
            note({"act": "ask", "h": h, "p": "none", "c": "none"}, {"r": "ok"}, got)
        for a in hist:
            p = places.get(a["p"])
            if a["act"] == "put":
                put(site.dirs[a["c"]], p)
                there.add(a["p"])
                note(a, {"r": "ok"})
            elif a["act"] == "remove":
                shutil.rmtree(p)
                there.discard(a["p"])
                note(a, {"r": "ok"})
                if rng.random() < 0.3:
                    h = rng.choice("gh")
                    note({"act": "load", "h": h, "p": a["p"], "c": "none"}, drv.call("engine_load", h=h, path=p))
            elif a["act"] == "inject":
                note(a, drv.call("inject", path=p, vanilla=False, values=site.values))
            elif a["act"] == "load":
                if rng.random() < 0.35:
                    z = os.path.join(ctx.dir, "place.zip")
                    archive(p, z)
                    note(dict(a, act="loadzip"), drv.call("engine_zip", h=a["h"], path=z))
                    os.unlink(z)
                else:
                    note(a, drv.call("engine_load", h=a["h"], path=p))
            elif a["act"] == "drop":
                drv.call("drop", h=a["h"])
                live.discard(a["h"])
                note(a, {"r": "ok"})
            else:
                question(a["h"])
        for h in sorted(live):
            question(h)
        events.append({"handles": ["g", "h"], "places": ["x", "y"], "steps": steps, "alone": site.alone})
        sources.append({"history": steps, "requests": site.requests, "alone": site.alone})
    ctx.notes["histories_replayed"] = len(events)
    side_by_side(ctx, events, sources, spare)
    ctx.notes["questions"] = sum(s["act"] == "ask" for ev in events for s in ev["steps"]) * len(site.requests)
    ctx.notes["contents_told_apart"] = "%d of %d" % (sum(len({json.dumps(x) for x in ev["alone"].values()}) for ev in events), 4 * len(events))
    for ev in events[-50::10]:
        ctx.sample(json.dumps([[s["act"], s["h"], s["p"], s["c"]] for s in ev["steps"]])[:300])
    ctx.judge("IsolationTrace", events, sources)
    bad = []
    for ev in events:
        s = next((s for s in ev["steps"] if s["act"] == "ask"), None)
        if s and ev["alone"]["a"] != ev["alone"]["b"]:
            c = json.loads(json.dumps(ev))
            t = next(t for t in c["steps"] if t["act"] == "ask")
            t["got"] = next(x for x in c["alone"].values() if x != t["got"])
            bad.append(c)
            break
    ctx.demonstrate_binding("IsolationTrace", events, bad)
