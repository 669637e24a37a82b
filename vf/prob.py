"""Check of the probabilistic parser (C34): its answers are those of its classifier and of the slot filler of the intent.
Configurations from spec/ProbDesign, random models; every answer is judged by spec/ProbTrace against the parts loaded alone."""
import json, os, shutil
from . import core, engine as en, gen, load, models as M
from .core import NONE

CFG = """SPECIFICATION Spec
CONSTANTS Intents = {"i", "j"} Levels = {0, 1%s} Careless = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
INVS = "C34_OwnFiller C34_Allowed C34_Fails C34_OthersDoNotMatter C34_AsSpecified"
FAULTY = {"classifier": "snips/ordinal", "i": "snips/percentage", "j": "snips/datetime"}


def islots(l):
    return [[s["range"][0], s["range"][1], gen.esc(s["value"]), s["entity"], s["slotName"]] for s in l]


def says(r):
    return gen.esc((r.get("chain") or [""])[-1]) if r["r"] == "err" else ""


class Parser:
    """A probabilistic parser, whole and part by part. fillers: [(intent, directory, keyword arguments of slot_filler)]"""

    def __init__(self, drv, d, lang, res, clf, fillers):
        self.drv, self.fillers = drv, {}
        p = os.path.join(d, "parser")
        M.wjson(os.path.join(p, "metadata.json"), {"unit_name": "probabilistic_intent_parser"})
        M.wjson(os.path.join(p, "intent_parser.json"), {"slot_fillers": [{"intent": i, "slot_filler_name": n} for i, n, _ in fillers]})
        M.classifier(os.path.join(p, "intent_classifier"), lang, **clf)
        for i, n, a in fillers:
            M.slot_filler(os.path.join(p, n), **dict(dict(lang=lang, intent=i), **a))
        self.ok(drv.call("clf_load", h="clf", path=os.path.join(p, "intent_classifier"), res=res))
        for k, (i, n, _) in enumerate(fillers):
            self.ok(drv.call("sf_load", h="sf%d" % k, path=os.path.join(p, n), res=res))
            self.fillers[i] = "sf%d" % k
        self.ok(drv.call("parser_load", h="whole", kind="probabilistic", path=p, res=res))
        self.what = {"classifier": clf, "fillers": fillers, "lang": lang}

    def ok(self, r):
        if r["r"] != "ok":
            raise core.ToolError("a part does not load: %r" % r)

    def filled(self, text):
        out = {}
        for i, h in self.fillers.items():
            r = self.drv.call("get_slots", h=h, text=text)
            out[i] = {"r": r["r"], "slots": islots(r["v"]) if r["r"] == "ok" else [], "says": says(r)}
        return out

    def source(self, text, r, **more):
        return dict(more, text=text, model=self.what, reply=r)

    def failed(self, r, names):
        t = " | ".join(r.get("chain", []))
        return {"names": [n for n in names if n in t], "chain": [gen.esc(c) for c in r.get("chain", [])]}

    def parse(self, text, wl):
        c = self.drv.call("clf_intent", h="clf", text=text, wl=wl)
        r = self.drv.call("parser_parse", h="whole", text=text, wl=wl)
        n = en.iname(c["v"]["intentName"]) if c["r"] == "ok" else NONE
        ev = {"op": "parse", "clf": {"r": c["r"], "n": n, "s": en.micro(c["v"]["confidenceScore"]) if c["r"] == "ok" else 0, "says": says(c)},
              "fillers": self.filled(text),
              "res": dict({"r": r["r"], "n": NONE, "s": 0, "slots": []}, **self.failed(r, [n]))}
        if r["r"] == "ok":
            ev["res"].update(n=en.iname(r["v"]["intent"]["intentName"]), s=en.micro(r["v"]["intent"]["confidenceScore"]), slots=islots(r["v"]["slots"]))
        return ev, self.source(text, r, wl=wl)

    def slots(self, text, intent):
        r = self.drv.call("get_slots", h="whole", text=text, intent=intent)
        return {"op": "slots", "intent": intent, "fillers": self.filled(text),
                "res": dict({"r": r["r"], "slots": islots(r["v"]) if r["r"] == "ok" else []}, **self.failed(r, [intent]))}, \
            self.source(text, r, intent=intent)

    def listing(self, text):
        c, r = self.drv.call("clf_intents", h="clf", text=text), self.drv.call("get_intents", h="whole", text=text)
        return {"op": "listing", "clf": dict(en.listing(c), says=says(c)), "res": dict(en.listing(r), **self.failed(r, []))}, self.source(text, r)


def check(ctx):
    core.build()
    drv, rng = ctx.driver(), ctx.rng
    dump = os.path.join(ctx.dir, "parsers.csv")
    ctx.model_check("ProbDesign", CFG % (ctx.pick("", ", 2"), "FALSE", INVS + " Export"), env={"DUMP": dump}, timeout=3000)
    ctx.refute("ProbDesign", CFG % ("", "TRUE", INVS), "C34_OwnFiller", "the careless parser")
    todo = sorted({l.strip() for l in open(dump)})
    ctx.notes["parsers_of_the_design"] = len(todo)
    rng.shuffle(todo)
    events, sources = [], []

    def add(pair):
        events.append(pair[0])
        sources.append(pair[1])

    d = ctx.fresh_dir("res")
    Parser.ok(None, drv.call("res_load", h="r", **M.resources(d, "en", custom={"faraway": [("faraway", "x")]}, builtin=gen.builtin_table())))
    ngram = load.feature("ngram", [0], n=1, use_stemming=False, common_words_gazetteer_name=None)
    for line in todo[:ctx.pick(120, 800)]:
        b = json.loads(json.loads(line) if line.startswith('"') else line)
        name = dict(zip("ij", rng.sample(["i", "j", "Play", "intent \u00e9", "", "~", "IJ", "a b"], 2)))
        d = ctx.fresh_dir("prob")
        lv = [b["score"]["i"], b["score"]["j"], b["score"][NONE]]
        clf = dict(intent_list=[name["i"], name["j"], None], intercept=[2.0 * x - 2.0 for x in lv], coeffs=[[0.0]] * 3,
                   builtin_scope=[FAULTY["classifier"]] if not b["clfok"] else [])
        fillers, spots = [], {"i": ["one", "two"], "j": ["two", "tea"]}
        for i in "ij":
            k = b["kinds"][i]
            if k == "missing":
                continue
            feats = [ngram] + ([load.feature("builtin_entity_match", [0], entity_labels=[FAULTY[i]], tagging_scheme_code=1)] if k == "fails" else [])
            fillers.append((name[i], rng.choice(["sf_" + i, "deep/%s" % i, "%s \u00e9" % i]),
                            dict(mapping={"s": "entity of " + i, "s" + i: "snips/number"}, features=feats, scheme=rng.randint(0, 2),
                                 tags={w: "%s-%s" % ("I", x) for w, x in zip(spots[i], ["s", "s" + i])} if k != "empty" else {"zzz": "I-s"})))
            if fillers[-1][2]["scheme"] == 2:
                fillers[-1][2]["tags"] = {w: "U" + t[1:] for w, t in fillers[-1][2]["tags"].items()}
            if rng.random() < 0.3:
                fillers[-1][2]["intent"] = rng.choice([name["i"], name["j"], "other"])
        rng.shuffle(fillers)
        p = Parser(drv, d, "en", "r", clf, fillers)
        bad = ["err" + k.split("/")[1].lower() for k in FAULTY.values()]
        for ask in ("all", "i", "j", "ij", "", "listing", "slots i", "slots j", "slots x"):
            ws = ["go", "one", "Two", "tea"] + bad
            if rng.random() < 0.3:
                rng.shuffle(ws)
            text = rng.choice([" ", "  ", ", "]).join(ws)
            if ask == "listing":
                add(p.listing(text))
            elif ask.startswith("slots"):
                add(p.slots(text, name.get(ask[-1], "stranger")))
            else:
                add(p.parse(text, None if ask == "all" else [name[i] for i in ask]))
        shutil.rmtree(d)
    # random models and texts
    for n in range(ctx.pick(60, 600)):
        w = gen.World(rng)
        a = w.probabilistic()
        d = ctx.fresh_dir("prob")
        res = w.res()
        Parser.ok(None, drv.call("res_load", h="rr", **M.resources(d, w.lang, **res)))
        have = [i for i in sorted(a["fillers"]) if rng.random() > 0.08]
        rng.shuffle(have)
        p = Parser(drv, d, w.lang, "rr", a["clf"], [(i, "slot_filler_%d" % k, a["fillers"][i]) for k, i in enumerate(have)])
        for _ in range(12):
            text = w.text() if rng.random() < 0.95 else w.text() + " parsererror"
            wl = rng.choice([None, w.intents, [], rng.sample(w.intents, rng.randint(0, len(w.intents)))])
            add(p.parse(text, wl))
            if rng.random() < 0.3:
                add(p.listing(text))
            if rng.random() < 0.5:
                add(p.slots(text, rng.choice(w.intents + ["stranger", ""])))
        shutil.rmtree(d)
    for ev in events[::300]:
        ctx.sample(json.dumps(ev)[:300])
    ctx.notes["outcomes"] = {k: sum(1 for ev in events if k == ev["op"] + "/" + ev["res"]["r"]) for k in
                             ("parse/ok", "parse/err", "slots/ok", "slots/err", "listing/ok", "listing/err")}
    ctx.judge("ProbTrace", events, sources)
    ok = [ev for ev in events if ev["op"] == "parse" and ev["res"]["r"] == "ok" and ev["res"]["slots"]]
    bad = [json.loads(json.dumps(ev)) for ev in ok[:3]]
    bad[0]["res"]["slots"].pop()
    bad[1]["res"]["n"] = "another"
    bad[2]["res"]["s"] += 1
    ctx.demonstrate_binding("ProbTrace", events, bad)
