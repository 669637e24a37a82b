"""Check of errors: C33. A fault of a part is reported by the whole, and the message names what is at fault."""
import json, os, shutil
from . import core, engine as en, gen, inject, load, models as M

CFG = """SPECIFICATION %s
CONSTANTS MaxParts = %d Kinds = {"lookup", "deterministic", "probabilistic"} Careless = %s
%s
CHECK_DEADLOCK FALSE
"""
INVS = "INVARIANTS C33_Reported C33_NoBlame C33_Declared"
FAULTY = ["snips/ordinal", "snips/percentage", "snips/temperature", "snips/datetime", "snips/timePeriod"]
LATER = ["snips/duration", "snips/amountOfMoney", "snips/region", "faraway", "nowhere"]


def word(kind):
    return "err" + kind.rsplit("/")[-1].lower()


class Walk:
    """A real engine whose parts follow scripts."""

    def __init__(self, rng, d, parts, lang="en"):
        self.rng, self.parts = rng, parts
        kinds = rng.sample(FAULTY, len(parts))
        values = rng.sample(LATER, len(parts))
        custom = rng.random() < 0.4 and all(p["script"] not in ("clf", "fails") or p["kind"] != "probabilistic" for p in parts)
        if custom:
            kinds = ["alpha", "beta", "gamma", "delta", "omega"][:len(parts)]
        self.words = {word(x): {"k": k + 1, "role": role} for role, l in (("part", kinds), ("value", values)) for k, x in enumerate(l)}
        tail = list(self.words)
        rng.shuffle(tail)
        self.text = " ".join(["go", "two"] + tail)
        self.faults = dict([("'%s'" % x, {"k": k + 1, "role": "part"}) for k, x in enumerate(kinds)] +
                           [("'%s'" % x, {"k": k + 1, "role": "value"}) for k, x in enumerate(values)])
        mapping = {"Ask": {"n": "snips/number"}, "Other": {}}
        for k, x in enumerate(values):
            mapping["Ask"]["v%d" % k] = x
        entities = {e: True for e in ("alpha", "beta", "gamma", "delta", "omega", "faraway", "nowhere", "plain")}
        self.kinds, self.mapping = kinds, mapping
        M.engine(d, lang, mapping, entities, [("part%d" % k, self.builder(p, k, kinds[k], tail, lang)) for k, p in enumerate(parts)],
                 res=dict(custom={e: [(e, e)] for e in entities}, gazetteers={"g": ["x"]}))

    def builder(self, p, k, kind, tail, lang):
        s, builtin = p["script"], kind.startswith("snips/")
        scope = ["snips/number"] + ([kind] if s == "fails" else [])
        rest = "".join(" " + w for w in tail)
        own = {"n": "snips/number"}
        if s == "fails":
            own["f"] = kind
        if p["kind"] == "deterministic":
            pattern = {"slots": "^go (?P<group0>%%SNIPSNUMBER%%)%s$", "bare": "^go two%s$"}.get(s, "^nothing%s$") % rest
            return lambda q: M.deterministic(q, lang, {"Ask": [pattern], "Other": ["^something else$"]}, {"group0": "n"},
                                             {"Ask": own, "Other": own})
        if p["kind"] == "lookup":
            text = {"slots": "go %%SNIPSNUMBER%%%s", "bare": "go two%s"}.get(s, "nothing%s") % rest
            slots = ["n"] if s == "slots" else []
            sc = {"builtin": [x for x in scope if x.startswith("snips/")], "custom": [x for x in scope if not x.startswith("snips/")]}
            return lambda q: M.lookup(q, lang, [(text.replace("%SNIPSNUMBER%", "% snipsnumber %"), "Ask", slots), ("something else", "Other", [])],
                                      [{"intent_group": ["Ask", "Other"], "entity_scope": sc}])
        top = [-5.0, -5.0, 5.0] if s == "none" else [5.0, 1.0, -5.0]
        clf = dict(intent_list=["Ask", "Other", None], intercept=top, coeffs=[[0.0]] * 3, vocab={"go": 0}, idf=[1.0],
                   builtin_scope=[kind] if s in ("fails", "clf") and builtin else [])
        feats = [load.feature("ngram", [0], n=1, use_stemming=False, common_words_gazetteer_name=None)]
        if s in ("fails", "late"):
            feats.append(load.feature("builtin_entity_match", [0], entity_labels=[kind], tagging_scheme_code=1) if builtin else
                         load.feature("entity_match", [0], entities=[kind], tagging_scheme_code=1, use_stemming=False))
        slot = {"slots": "n", "clf": "n", "unresolved": "v%d" % k}.get(s)
        fill = dict(mapping=self.mapping["Ask"], features=feats, tags={"two": "B-" + slot} if slot else {"zzz": "B-n"})
        other = dict(mapping={"n": "snips/number"}, features=feats, tags={"zzz": "B-n"})
        return lambda q: M.probabilistic(q, lang, clf, {"Ask": fill, "Other": other})

    def request(self, what):
        t = self.text
        return {"parse": dict(op="parse", text=t), "other": dict(op="parse", text=t, wl=["Other"]), "alternatives": dict(op="parse", text=t, ia=3, sa=1),
                "listing": dict(op="get_intents", text=t), "slots": dict(op="get_slots", text=t, intent="Ask"),
                "otherslots": dict(op="get_slots", text=t, intent="Other")}[what]

    def event(self, what, r):
        chain = " | ".join(r.get("chain", []))
        x = "none"
        if r["r"] == "ok" and what in ("parse", "other", "alternatives"):
            x = "none" if r["v"]["intent"]["intentName"] is None else "slots" if r["v"]["slots"] else "bare"
        elif r["r"] == "ok" and what != "listing":
            x = "slots" if r["v"] else "none"
        return {"op": "walk", "what": what, "parts": self.parts, "r": r["r"], "x": x,
                "named": [f for n, f in sorted(self.faults.items()) if n in chain]}


# ------------------------------------------------------------------ what is at fault in a model, in a request
class Faults:
    def __init__(self, ctx):
        self.ctx, self.rng, self.events, self.sources = ctx, ctx.rng, [], []
        self.src = ctx.fresh_dir("base")
        self.lang = load.base(self.src, "A")
        self.n = 0

    def note(self, place, reply, things, what):
        """things: {what to tell: the texts, one of which tells it}"""
        chain = " | ".join(reply.get("chain", [])).replace("\\\\", "\\")
        self.events.append({"op": "fault", "place": place, "r": reply["r"],
                            "shown": sorted(k for k, l in things.items() if any(t in chain for t in l))})
        self.sources.append({"place": place, "what": what, "to tell": things, "reply": reply})

    def copy(self):
        d = self.ctx.fresh_dir("f")
        shutil.copytree(self.src, d, dirs_exist_ok=True)
        return d

    def load(self, d, place, things, what):
        self.note(place, self.ctx.driver().call("engine_load", h="x", path=os.path.join(d, "m")), things, what)
        shutil.rmtree(d)

    def edit(self, rel, change, place, things):
        d = self.copy()
        p = os.path.join(d, "m", rel)
        j = json.load(open(p))
        change(j)
        json.dump(j, open(p, "w"))
        self.load(d, place, things, "%s with %s" % (rel, things))

    def files(self):
        """Each file of the model, missing."""
        own = []
        for top, _, names in os.walk(os.path.join(self.src, "m")):
            own += [os.path.relpath(os.path.join(top, n), os.path.join(self.src, "m")) for n in names]
        own = [f for f in own if not f.startswith("builtin_entity_parser/") and not f.startswith("custom_entity_parser/parser/")]
        inj, told = sorted(json.load(open(os.path.join(self.src, "m", "nlu_engine.json")))["dataset_metadata"]["entities"])[0], 0
        for f in sorted(own):
            if f.endswith("_vectorizer/metadata.json") or f.endswith("featurizer/metadata.json"):
                continue                                # not read
            d = self.copy()
            os.unlink(os.path.join(d, "m", f))
            parser = f.split("/")[0] if f.count("/") == 1 and f.startswith("p") and f.endswith("metadata.json") else None
            # an injection that needs the file tells it, with the causes of the failure
            r = self.ctx.driver().call("inject", path=os.path.join(d, "m"), vanilla=False, values=[[inj, "tea"]])
            if r["r"] != "ok":
                self.note("file", r, {"name": [f]}, "injection without " + f)
                told += 1
            self.load(d, "parser-file" if parser else "file", {"name": ["'%s'" % parser] if parser else [f]}, "no " + f)
        if not told:
            raise core.ToolError("no injection failed for want of a file")
        self.ctx.notes["injections_failing_for_want_of_a_file"] = told

    def catalogue(self):
        rng, ed = self.rng, self.edit
        name = lambda: "".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(7)) + rng.choice(["", " x", "\u00e9", "-Z"])
        for v in ["0.19.0", "1.20.0", "0.20", "", "0.20.0 ", name()] + [name() for _ in range(3)]:
            ed("nlu_engine.json", lambda j: j.update(model_version=v), "version", {"model": ["model is %s but" % v], "runner": ["runner is 0.20.0"]})
        clf, fill = "p3/intent_classifier/featurizer/", "p3/slot_filler_0/slot_filler.json"
        for _ in range(self.ctx.pick(4, 40)):
            n = name()
            q = ["'%s'" % n, '"%s"' % n]

            def feats(f):
                def change(j):
                    l = j["config"]["feature_factory_configs"]
                    new = f()
                    l.insert(rng.randint(0, len(l)), new)
                return change
            ed(fill, feats(lambda: load.feature("ngram", [0], n=1, use_stemming=False, common_words_gazetteer_name=n)), "resource", {"name": q})
            ed(fill, feats(lambda: load.feature("word_cluster", [0], cluster_name=n, use_stemming=False)), "resource", {"name": q})
            ed(fill, feats(lambda: load.feature(n, [0])), "feature-kind", {"name": [n]})
            ed(fill, feats(lambda: load.feature("builtin_entity_match", [0], entity_labels=[n], tagging_scheme_code=1)), "builtin-kind", {"name": [n]})
            ed(clf + "tfidf_vectorizer/vectorizer.json", lambda j: j["config"].update(word_clusters_name=n), "resource", {"name": q})
            ed(clf + "tfidf_vectorizer/vectorizer.json", lambda j: j.update(builtin_entity_scope=[n]), "builtin-kind", {"name": q})
            ed(clf + "cooccurrence_vectorizer/vectorizer.json", lambda j: j.update(builtin_entity_scope=[n]), "builtin-kind", {"name": q})
            for f in rng.sample(["p1/metadata.json", "p3/intent_classifier/metadata.json", "p3/slot_filler_0/metadata.json"], 2):
                ed(f, lambda j: j.update(unit_name=n), "unit", {"name": [n]})
            for f, path in (("nlu_engine.json", "dataset_metadata"), ("p1/intent_parser.json", ""), ("p2/intent_parser.json", ""), (fill, ""),
                            (clf + "tfidf_vectorizer/vectorizer.json", ""), ("custom_entity_parser/metadata.json", "c")):
                change = (lambda j: j["dataset_metadata"].update(language_code=n)) if path == "dataset_metadata" else \
                    (lambda j: j.update(language=n)) if path == "c" else (lambda j: j.update(language_code=n))
                ed(f, change, "language", {"name": [n]})
            ed("p1/intent_parser.json", lambda j: j["patterns"]["go"].append("^(?P<%s>x)$" % "grp9z"), "group", {"name": ["'grp9z'"]})
            ed("p1/intent_parser.json", lambda j: j["group_names_to_slot_names"].update(group0=n), "group-slot", {"name": q})
            ed("p1/intent_parser.json", lambda j: j["patterns"]["go"].append("([%s" % n), "pattern", {"name": ["([" + n]})
            for k in (rng.choice([7, 99, 1000]), rng.choice([-1, -2, -2147483648])):
                ed("p2/intent_parser.json", lambda j: j["map"].update({"5": [k, []]}), "lookup-intent", {"number": ["'%d'" % k]})
                ed("p2/intent_parser.json", lambda j: j["map"].update({"5": [0, [0, k]]}), "lookup-slot", {"number": ["'%d'" % k]})
            code = rng.choice([3, 7, 200, 256, 258, 70000])
            ed(fill, feats(lambda: load.feature("builtin_entity_match", [0], entity_labels=["snips/number"], tagging_scheme_code=code)), "scheme", {"name": [str(code)]})
            ed(fill, lambda j: j["config"].update(tagging_scheme=rng.choice([code % 250 + 3])), "scheme", {"name": [str(code % 250 + 3)]})
        for args in load.ALL_FEATURES:
            for a in args["args"]:
                if args["factory_name"] == "word_cluster" and a == "use_stemming":
                    continue                        # not read
                def drop(j):
                    j["config"]["feature_factory_configs"].append(dict(args, args={k: v for k, v in args["args"].items() if k != a}))
                ed(fill, drop, "feature-argument", {"name": ["'%s'" % a]})

                def wrong(j):
                    j["config"]["feature_factory_configs"].append(dict(args, args=dict(args["args"], **{a: {"x": 1}})))
                ed(fill, wrong, "feature-argument", {"name": ["'%s'" % a]})

    def requests(self):
        """Unknown names given to an engine, and to each of its parts."""
        drv, rng, m = self.ctx.driver(), self.rng, os.path.join(self.src, "m")
        for r in [drv.call("engine_load", h="x", path=m),
                  drv.call("res_load", h="r", resources=m + "/resources/en", builtin=m + "/builtin_entity_parser", custom=m + "/custom_entity_parser"),
                  drv.call("parser_load", h="p0", kind="deterministic", path=m + "/p1", res="r"),
                  drv.call("parser_load", h="p1", kind="lookup", path=m + "/p2", res="r"),
                  drv.call("parser_load", h="p2", kind="probabilistic", path=m + "/p3", res="r")]:
            if r["r"] != "ok":
                raise core.ToolError("%r" % r)
        for ghost in ["ghost", "Go", "go ", "o'x", "caf\u00e9", "q" * 300, "{}", "%s", "line\nbreak"] + ["intent%d" % rng.randint(10, 99) for _ in range(5)]:
            for text in ["go paris", "", "make coffee"]:
                say = lambda place, r, what: self.note(place, r, {"name": [ghost]}, what)
                say("intent-in-filter", drv.call("parse", h="x", text=text, wl=["go", ghost]), "whitelist")
                say("intent-in-filter", drv.call("parse", h="x", text=text, bl=[ghost]), "blacklist")
                say("intent-in-filter", drv.call("parse", h="x", text=text, wl=["go"], bl=["other", ghost], ia=2), "both")
                say("intent", drv.call("get_slots", h="x", text=text, intent=ghost), "get_slots")
                say("intent", drv.call("extract_slot", h="x", text=text, intent=ghost, slot="where"), "extract_slot")
                say("slot", drv.call("extract_slot", h="x", text=text, intent="go", slot=ghost), "extract_slot")
                for p in "p0", "p1", "p2":
                    say("intent", drv.call("get_slots", h=p, text=text, intent=ghost), "get_slots of " + p)
        # a slot that its filler does not map to an entity, found while parsing
        for n in ["lost", "caf\u00e9", "a b"]:
            d = self.ctx.fresh_dir("lost")
            M.engine(d, "en", {"i": {"n": "snips/number"}}, {}, [("p", lambda p: M.probabilistic(
                p, "en", dict(intent_list=["i"], featurizer=False), {"i": dict(mapping={"n": "snips/number"}, tags={"two": "B-" + n})}))], res={})
            r = drv.call("engine_load", h="y", path=d)
            if r["r"] == "ok":
                self.note("slot", drv.call("parse", h="y", text="go two"), {"name": [n]}, "parse")
                self.note("slot", drv.call("get_slots", h="y", text="go two", intent="i"), {"name": [n]}, "get_slots")
                r = {"r": "ok", "v": drv.call("parse", h="y", text="go")["r"]}
                if r["v"] != "ok":
                    self.note("slot", r, {"name": [""]}, "parse of a text without the slot")
            # and an intent that a part maps to no patterns, or to no filler
            d = self.ctx.fresh_dir("lost")
            M.engine(d, "en", {n: {}}, {}, [("p", lambda p: M.deterministic(p, "en", {}, {}, {n: {}}))], res={})
            if drv.call("engine_load", h="y", path=d)["r"] == "ok":
                self.note("intent", drv.call("parse", h="y", text="go two"), {"name": [n]}, "parse, no patterns")
                self.note("intent", drv.call("get_intents", h="y", text="go two"), {"name": [n]}, "get_intents, no patterns")
            # a builtin entity that does not exist, in what a part looks for
            d = self.ctx.fresh_dir("lost")
            M.engine(d, "en", {"i": {}}, {}, [("p", lambda p: M.lookup(p, "en", [("go two", "i", [])], [
                {"intent_group": ["i"], "entity_scope": {"builtin": ["snips/number", n], "custom": []}}]))], res={})
            r = drv.call("engine_load", h="y", path=d)
            self.note("builtin-kind", drv.call("parse", h="y", text="go two") if r["r"] == "ok" else r, {"name": [n]}, "lookup scope")
            d = self.ctx.fresh_dir("lost")
            M.engine(d, "en", {n: {}}, {}, [("p", lambda p: M.probabilistic(p, "en", dict(intent_list=[n], featurizer=False), {}))], res={})
            if drv.call("engine_load", h="y", path=d)["r"] == "ok":
                self.note("intent", drv.call("parse", h="y", text="go two"), {"name": [n]}, "parse, no filler")
                self.note("intent", drv.call("get_slots", h="y", text="go two", intent=n), {"name": [n]}, "get_slots, no filler")


def extraction(ctx, w, h, events, sources):
    """extract_slot asks one entity parser only."""
    drv = ctx.driver()
    for slot, e in w.mapping["Ask"].items():
        for text in (w.text, "go two " + word(e)):
            r = drv.call("extract_slot", h=h, text=text, intent="Ask", slot=slot, sa=1)
            if word(e) in text.split():
                events.append({"op": "fault", "place": "entity", "r": r["r"], "shown": ["name"] if "'%s'" % e in " ".join(r.get("chain", [])) else []})
                sources.append({"text": text, "slot": slot, "entity": e, "reply": r})


def check(ctx):
    core.build()
    rng = ctx.rng
    code, out, _, _ = ctx.tlc("ErrDesign", CFG % ("SpecCareless", 2, "TRUE", INVS))
    if "is violated" not in out:
        raise core.ToolError("a swallowed error went unnoticed:\n" + core.terse(out))
    dump = os.path.join(ctx.dir, "walks.csv")
    ctx.model_check("ErrDesign", CFG % ("Spec", 3, "FALSE", INVS + " Export"), env={"DUMP": dump}, timeout=3000)
    walks = {}
    for line in open(dump):
        x = json.loads(json.loads(line))
        walks.setdefault(json.dumps(x["parts"]), set()).add(x["op"])
    ctx.notes["engines_of_the_design"] = len(walks)
    short = sorted(p for p in walks if len(json.loads(p)) < 3)
    long = sorted(p for p in walks if len(json.loads(p)) == 3)
    todo = short + rng.sample(long, ctx.pick(150, len(long)))
    events, sources, seen = [], [], set()
    for k, p in enumerate(todo):
        d = ctx.fresh_dir("walk")
        w = Walk(rng, d, json.loads(p))
        r = ctx.driver().call("engine_load", h="w", path=d)
        if r["r"] != "ok":
            raise core.ToolError("%s: %r" % (p, r))
        for what in sorted(walks[p]):
            for again in range(2):                  # nothing is remembered of a failure
                r = ctx.driver().send(dict(w.request(what), h="w"))
                ev = w.event(what, r)
                key = json.dumps(ev, sort_keys=True)
                if key not in seen:
                    seen.add(key)
                    events.append(ev)
                    sources.append({"parts": w.parts, "kinds": w.kinds, "text": w.text, "request": w.request(what), "reply": r})
        if k % 10 == 0:
            extraction(ctx, w, "w", events, sources)
        shutil.rmtree(d)
    ctx.notes["engines_with_scripted_faults"] = len(todo)
    f = Faults(ctx)
    f.files()
    f.catalogue()
    f.requests()
    ctx.notes["faults_of_models_and_requests"] = len(f.events)
    events += f.events
    sources += f.sources
    for s in f.sources[::max(1, len(f.sources) // 6)]:
        ctx.sample(json.dumps({"what": s["what"], "chain": s["reply"].get("chain")})[:300])
    ctx.judge("ErrTrace", events, sources)
    bad = [dict(next(e for e in events if e["op"] == "walk" and e["r"] == "err"), r="ok"),
           dict(next(e for e in events if e["op"] == "walk" and e["r"] == "err"), named=[]),
           dict(next(e for e in events if e["op"] == "walk" and e["r"] == "ok"), r="err"),
           dict(next(e for e in events if e["op"] == "fault" and e["place"] == "version"), shown=["model"]),
           dict(next(e for e in events if e["op"] == "fault"), r="ok")]
    ctx.demonstrate_binding("ErrTrace", events, bad)
    # injections tell a refusal from a failure, and name what they refuse
    run = inject.Runner(ctx)
    stories, told = [], []

    def done(site, steps, what):
        stories.append(inject.finish_story(site, steps))
        told.append({"what": what, "steps": [{k: s.get(k) for k in ("expect", "fault", "values", "vanilla", "shown", "load")} for s in steps]})
        shutil.rmtree(site.d, ignore_errors=True)
    inject.check_refusals(ctx, run, lambda simple=False: inject.Site(rng, ctx.driver(), ctx.fresh_dir("site"), simple), done, [], ctx.pick(0.4, 1))
    ctx.notes["injections"] = sum(len(s["steps"]) for s in stories)
    ctx.judge("InjectionTrace", stories, told)
