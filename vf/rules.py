"""Checks of the rule-based parsers: C13 (patterns), C14 (tables), C15 (stop words)."""
import json, os, re, shutil
from . import core, gen, models as M
from .core import NONE, codes
from .engine import micro, flt, iname, BUILTIN_KINDS


def esc(s):
    return json.dumps(s)[1:-1]


def low(text):
    return "".join(c.lower() if len(c.lower()) == 1 else c for c in text)


class Rig:
    """One parser of either kind, with what the specification needs to know of it."""

    def __init__(self, drv, kind, lang, mapping, res, ignore, keep, stops, handle):
        self.drv, self.kind, self.lang, self.mapping, self.h, self.res = drv, kind, lang, mapping, handle, res
        self.known = sorted(mapping)
        self.base = {"kind": kind, "known": self.known, "ignore": ignore, "stops": [esc(w) for w in stops or []],
                     "keep": {i: [esc(w) for w in ws] for i, ws in keep.items()},
                     "mapping": mapping, "patterns": {}, "table": {}}
        self.listed = self.known

    def load(self, path):
        r = self.drv.call("parser_load", h=self.h, kind="deterministic" if self.kind == "det" else "lookup", path=path, res=self.res)
        if r["r"] != "ok":
            raise core.ToolError("cannot load the parser: %r" % r)

    def toks(self, text):
        return [{"s": t["s"], "e": t["e"], "n": esc(t["n"]), "low": esc(t["low"])}
                for t in self.drv.call("tokenize", text=text, lang=self.lang)["v"]]

    def entities(self, text, intent):
        ents = sorted(set(self.mapping[intent].values()))
        out = []
        b = self.drv.call("builtin", h=self.res, text=text, kinds=[e for e in ents if e in BUILTIN_KINDS], cache=False, sa=0)
        c = self.drv.call("custom", h=self.res, text=text, kinds=[e for e in ents if e not in BUILTIN_KINDS], sa=0)
        for r, name in ((b, "kind"), (c, "entity")):
            if r["r"] != "ok":
                raise core.ToolError("entities: %r" % r)
            for m in r["v"]:
                ph = gen.placeholder(m[name])
                out.append({"s": m["range"][0], "e": m["range"][1], "ent": m[name], "phlow": codes(ph.lower()),
                            "phwords": ["%", esc(ph.lower()[1:-1]), "%"]})
        return out

    def kept(self, ents):
        out = []
        for m in sorted(ents, key=lambda m: m["s"] - m["e"]):
            if not any(k["s"] < m["e"] and m["s"] < k["e"] for k in out):
                out.append(m)
        return sorted(out, key=lambda m: m["s"])

    def found(self, text, intents):
        out = {}
        for i in intents:
            ents = self.entities(text, i)
            f, at = "", 0
            for m in self.kept(ents):
                f += text[at:m["s"]] + "".join(map(chr, m["phlow"])).upper()
                at = m["e"]
            f += text[at:]
            out[i] = {"ents": ents, "low": codes(low(f)), "tokens": self.toks(f) if self.kind == "det" else []}
        return out

    def answer(self, text, wl):
        r = self.drv.call("parser_parse", h=self.h, text=text, wl=wl)
        if r["r"] != "ok":
            return r, {"r": r["r"], "intent": NONE, "score": 0, "slots": []}
        v = r["v"]
        return r, {"r": "ok", "intent": iname(v["intent"]["intentName"]), "score": micro(v["intent"]["confidenceScore"]),
                   "slots": [self.slot(s) for s in v["slots"]]}

    def slot(self, s):
        return {"slot": s["slotName"], "s": s["range"][0], "e": s["range"][1], "entity": s["entity"], "raw": codes(s["value"])}

    def allowed(self, wl):
        return [i for i in self.known if wl is None or i in wl]

    def common(self, text, wl):
        return dict(self.base, wl=flt(wl), text=codes(text), low=codes(low(text)), tokens=self.toks(text),
                    found=self.found(text, self.allowed(wl)), listed=self.listed, design={"g": False, "intent": ""})

    def parse(self, text, wl):
        r, a = self.answer(text, wl)
        return dict(self.common(text, wl), op="parse", res=a), {"text": text, "wl": wl, "reply": r}

    def intents(self, text):
        r = self.drv.call("get_intents", h=self.h, text=text)
        l = [{"i": iname(x["intentName"]), "s": micro(x["confidenceScore"])} for x in r["v"]] if r["r"] == "ok" else []
        return dict(self.common(text, None), op="intents", res={"r": r["r"], "l": l}), {"text": text, "reply": r}

    def slots(self, text, intent):
        r = self.drv.call("get_slots", h=self.h, text=text, intent=intent)
        chain = " | ".join(r.get("chain", []))
        return dict(self.common(text, [intent]), op="slots", intent=intent,
                    res={"r": r["r"], "slots": [self.slot(s) for s in r["v"]] if r["r"] == "ok" else [],
                         "named": intent in chain}), {"text": text, "intent": intent, "reply": r}

    def pad(self, text, k):
        return {"op": "pad", "kind": self.kind, "k": k, "a": self.answer(text, None)[1],
                "b": self.answer(" " * k + text, None)[1]}, {"text": text, "blanks": k}

    def stop(self, rng, text, intent, word):
        """The text with a stop word more, where it separates the same entities."""
        toks = self.toks(text)
        ea = self.kept(self.entities(text, intent))
        at = rng.choice([0] + [t["e"] for t in toks])
        if any(m["s"] < at < m["e"] for m in ea):
            return None
        if any(m.start() < at < m.end() for m in re.finditer(r"%\w+%", text)):      # would cut a placeholder in two
            return None
        more = " " + word + " "
        other = text[:at] + more + text[at:]
        eb = self.kept(self.entities(other, intent))
        moved = [(m["s"] + (len(more) if m["s"] >= at else 0), m["e"] - m["s"], m["ent"]) for m in ea]
        if moved != [(m["s"], m["e"] - m["s"], m["ent"]) for m in eb]:
            return None
        if len(self.toks(other)) != len(toks) + 1:
            return None
        a, b = self.answer(text, [intent]), self.answer(other, [intent])
        return {"op": "stop", "a": a[1], "b": b[1]}, {"text": text, "other": other, "intent": intent, "replies": [a[0], b[0]]}


def of_world(rng, drv, d, kind, w, handle):
    paths = M.resources(d, w.lang, **w.res())
    r = drv.call("res_load", h=handle + "r", **paths)
    if r["r"] != "ok":
        raise core.ToolError("%r" % r)
    rig = Rig(drv, kind, w.lang, w.mapping, handle + "r", w.ignore_stop_words, w.stop_whitelist, w.stop_words, handle)
    p = os.path.join(d, "parser")
    if kind == "det":
        M.deterministic(p, w.lang, **w.deterministic())
        rig.base["patterns"] = w.det_templates
    else:
        args = w.lookup(lambda t: drv.call("tokenize", text=t, lang=w.lang)["v"], rng.random() < 0.3)
        M.lookup(p, w.lang, **args)
        rig.base["table"] = {esc(t): {"intent": i, "slots": s} for t, i, s in w.lookup_table}
        rig.listed = args["intents"]
    rig.load(p)
    return rig


ENTITY = "snips/number"
PH = gen.placeholder(ENTITY)
DESIGN_MAPPING = {"a": {"s": ENTITY}, "b": {"s": ENTITY}}


def of_design(drv, d, sc, handle):
    """The parser of a behaviour of RulesDesign."""
    keep = {i: ["the"] if i in sc["keep"] else [] for i in ("a", "b")}
    rig = Rig(drv, sc["kind"], "en", DESIGN_MAPPING, handle + "r", sc["ignore"], keep, ["the"], handle)
    pats = {i: [w for w in sc["utt"][i] if not (w == "the" and sc["ignore"] and i not in sc["keep"])] for i in ("a", "b")}
    p = os.path.join(d, "parser")
    if sc["kind"] == "det":
        patterns, spec = {}, {}
        for i, ws in pats.items():
            parts, n, pieces = [], 0, []
            for w in ws:
                if w == "N":
                    n += 1
                    parts.append("(?P<%s>%s)" % ("group0" if n == 1 else "group0_%d" % n, PH))
                    pieces.append({"alts": [codes(PH.lower())], "slot": "s", "opt": False})
                else:
                    parts.append(w)
                    pieces.append({"alts": [codes(w)], "slot": "", "opt": False})
            patterns[i] = ["^\\s*" + "\\s*".join(parts) + "\\s*$"]
            spec[i] = [{"pieces": pieces, "wide": []}]
        M.deterministic(p, "en", patterns, {"group0": "s"}, DESIGN_MAPPING, keep, sc["ignore"])
        rig.base["patterns"] = spec
    else:
        keys = {i: " ".join("% snipsnumber %" if w == "N" else w for w in ws) for i, ws in pats.items()}
        if keys["a"] == keys["b"]:
            return None
        utt = [(keys[i], i, ["s"] * pats[i].count("N")) for i in ("a", "b")]
        M.lookup(p, "en", utt, [{"intent_group": ["a", "b"], "entity_scope": {"builtin": [ENTITY], "custom": []}}], keep,
                 sc["ignore"], ["a", "b"], ["s"])
        rig.base["table"] = {t: {"intent": i, "slots": s} for t, i, s in utt}
    rig.load(p)
    return rig


CFG = """SPECIFICATION %s
CONSTANTS TextWords = {"go", "the", "one", "two"} UttWords = {"go", "the", "N"} MaxText = %d MaxUtt = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
INV = "Entities_Kept C13_C14_ExactlyThePatterns C13_C14_Majority C15_Ignored C15_Kept C13_SlotsAreValues"


def check(ctx):
    core.build()
    prop, rng, drv = ctx.prop, ctx.rng, ctx.driver()
    ctx.model_check("RulesDesign", CFG % ("Spec", ctx.pick(3, 4), 2, INV), timeout=3000)
    kinds = {"C13": ["det"], "C14": ["look"], "C15": ["det", "look"]}[prop]
    events, sources = [], []

    def add(pair):
        if pair is not None:
            events.append(pair[0])
            sources.append(pair[1])

    # behaviours of the design
    dump = os.path.join(ctx.dir, "behaviours.csv")
    ctx.simulate("RulesDesign", CFG % ("SimSpec", 4, 3, "Export"), env={"DUMP": dump}, num=ctx.pick(3000, 12000), depth=16)
    seen = set()
    d = ctx.fresh_dir("design")
    paths = M.resources(d, "en", stop_words=["the"], custom={}, builtin=[
        {"phrase": p, "kind": ENTITY, "value": {"kind": "Number", "value": v}, "alternatives": []}
        for p, v in (("one", 1.0), ("one two", 12.0))])
    r = drv.call("res_load", h="dr", **paths)
    if r["r"] != "ok":
        raise core.ToolError("%r" % r)
    for line in open(dump):
        line = line.strip()
        if line in seen:
            continue
        seen.add(line)
        sc = json.loads(json.loads(line) if line.startswith('"') else line)
        if sc["kind"] not in kinds:
            continue
        rig = of_design(drv, d, sc, "d")
        if rig is None:
            continue
        text = rng.choice(["", " "]) + "".join(w + rng.choice([" ", " ", "  ", ", "]) for w in sc["text"])
        ev, src = rig.parse(text, None)
        ev["design"] = {"g": True, "intent": sc["res"]["intent"]}
        src["behaviour"] = sc
        add((ev, src))
    ctx.notes["behaviours_replayed"] = len(events)
    # random parsers
    for n in range(ctx.pick(160, 1500)):
        d = ctx.fresh_dir("w")
        w = gen.World(rng, stop=True if prop == "C15" and rng.random() < 0.9 else None)
        if prop == "C15":
            w.odd_patterns = False
            if rng.random() < 0.3:
                w.ignore_stop_words = False
        kind = rng.choice(kinds)
        if n % 40 == 20 and prop != "C15":              # many intents, and all of them have the text
            w = gen.World(rng, n_intents=40, names=["skill%02d" % k for k in range(40)])
            shared = w.rivals()
            rig = of_world(rng, drv, d, kind, w, "w")
            for wl in [None, rng.sample(w.intents, 20)]:
                add(rig.parse(shared, wl))
            add(rig.intents(shared))
            shutil.rmtree(d, ignore_errors=True)
            continue
        if n % 20 == 10 and prop != "C15":              # many entities in one text
            w = gen.World(rng, n_intents=2, stop=False)
            w.odd_patterns = False
            i, j = w.intents
            w.mapping[i] = {"a": "drink", "b": "snips/number", "c": "city"}
            k = rng.choice([8, 12, 36, 44] if kind == "det" else [6, 7, 8, 9])    # a table is read with every choice of the entities
            w.utterances[i] = [[rng.choice([("w", "go"), ("w", "play")] + [("s", s) for s in ("aabbcc" if kind == "det" else "aabbcc" * 4)]) for _ in range(k)] + [("w", "go"), ("s", "a")]]
            w.mapping[j], w.utterances[j] = {}, [[("w", "go")]]
            rig = of_world(rng, drv, d, kind, w, "w")
            single = {s: [v for v in gen.entity_values(w.mapping[i][s]) if v.isascii() and v.isalnum()] for s in "abc"}
            for _ in range(3):
                text = " ".join(x if q == "w" else rng.choice(single[x]) for q, x in w.utterances[i][-1])
                add(rig.parse(text, None))
                add(rig.slots(text, i))
            shutil.rmtree(d, ignore_errors=True)
            continue
        if n % 8 == 0 and prop != "C15":                # how many slots decides
            shared = w.rivals()
            rig = of_world(rng, drv, d, kind, w, "w")
            for wl in [None] + [rng.sample(w.intents, rng.randint(1, len(w.intents))) for _ in range(2)]:
                add(rig.parse(shared, wl))
            add(rig.intents(shared))
            shutil.rmtree(d, ignore_errors=True)
            continue
        rig = of_world(rng, drv, d, kind, w, "w")
        for _ in range(ctx.pick(10, 25)):
            text = w.text(clean=rng.random() < 0.5)
            roll = rng.random()
            if roll < 0.2:             # an utterance, some of its values given as placeholders
                i = rng.choice(w.intents)
                text = " ".join(x if k == "w" else gen.placeholder(w.mapping[i][x]) if rng.random() < 0.4
                                else rng.choice(gen.entity_values(w.mapping[i][x])) for k, x in rng.choice(w.utterances[i]))
            elif roll < 0.25:
                text = text.replace(" ", " \u0130 ", 1)
            elif roll < 0.3:
                text += " " + gen.placeholder(rng.choice(list(gen.CUSTOM) + ["snips/number"]))
            if w.stop_words and rng.random() < 0.02:       # what counts comes last
                text = (rng.choice(w.stop_words) + " ") * rng.choice([40, 120]) + text
            wl = None if rng.random() < 0.5 else rng.sample(w.intents, rng.randint(0, len(w.intents)))
            roll = rng.random()
            if prop == "C15" and w.stop_words and w.ignore_stop_words and roll < 0.5:
                i = rng.choice(w.intents)
                words = w.kept_stop_words(i)
                if words:
                    add(rig.stop(rng, w.text(clean=True), i, (lambda x: gen.ACCENTED.get(x, x) if rng.random() < 0.4 else x)(rng.choice(words))))
                    continue
            if prop == "C15" and w.stop_words:
                ws = text.split(" ")
                ws.insert(rng.randint(0, len(ws)), rng.choice(w.stop_words))
                text = " ".join(ws)
            if roll < 0.7:
                add(rig.parse(text, wl))
            elif roll < 0.8:
                add(rig.intents(text))
            elif roll < 0.96:
                add(rig.slots(text, rng.choice(w.intents * 4 + ["ghost"])))
            else:
                add(rig.pad(text, rng.choice([1, 7, 40, 33000, 70000])))
        shutil.rmtree(d, ignore_errors=True)
    for ev in events[-200::40]:
        ctx.sample(json.dumps({"op": ev["op"], "res": ev.get("res", ev.get("a")), "text": "".join(map(chr, ev.get("text", [])))})[:400])
    ctx.notes["answers_with_an_intent"] = sum(ev["op"] == "parse" and ev["res"]["intent"] != NONE for ev in events)
    ctx.judge("RulesTrace", events, sources)
    bad = []
    ok = lambda ev: ev["op"] == "parse" and ev["res"]["intent"] != NONE and ev["res"]["slots"] and not ev["design"]["g"]
    good = [ev for ev in events if ok(ev)]
    a = json.loads(json.dumps(good[0]))
    a["res"]["slots"].pop()
    b = json.loads(json.dumps(good[-1]))
    b["res"].update(intent=NONE, slots=[], score=1000000)
    bad = [a, b]
    if prop == "C15":
        c = json.loads(json.dumps(next(ev for ev in events if ev["op"] == "stop" and ev["a"]["intent"] != NONE)))
        c["b"]["intent"] = NONE
        bad.append(c)
    ctx.demonstrate_binding("RulesTrace", events, bad)
