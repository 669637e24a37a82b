"""Checks of the engine: C01 to C09. Scenarios from spec/EngineDesign, random engines, the models of the repository;
every answer is judged by spec/EngineTrace."""
import json, os, shutil
from . import core, gen, models as M
from .core import NONE, codes

MICRO = 1000000
BUILTIN_KINDS = ["snips/amountOfMoney", "snips/duration", "snips/number", "snips/ordinal", "snips/temperature",
                 "snips/datetime", "snips/date", "snips/time", "snips/datePeriod", "snips/timePeriod", "snips/percentage",
                 "snips/musicAlbum", "snips/musicArtist", "snips/musicTrack", "snips/city", "snips/country", "snips/region"]


def canon(v):
    return json.dumps(v, sort_keys=True, ensure_ascii=True)


def micro(x):
    return int(round(x * MICRO)) if x is not None and abs(x) < 1e300 else -999


def iname(x):
    return NONE if x is None else x


def listed_names(p, kind):
    """The intents a parser lists, from its model file."""
    m = json.load(open(os.path.join(p, "intent_parser.json")))
    if kind.startswith("deterministic"):
        return sorted(m["patterns"]) + [NONE]
    if kind.startswith("lookup"):
        return sorted(m["intents_names"]) + [NONE]
    c = json.load(open(os.path.join(p, "intent_classifier", "intent_classifier.json")))
    return [NONE if i is None else i for i in c["intent_list"]] or [NONE]


class Loaded:
    """An engine directory, loaded whole and part by part."""

    def __init__(self, drv, path, handle, lang="en"):
        self.drv, self.path, self.h = drv, path, handle
        m = json.load(open(os.path.join(path, "nlu_engine.json")))
        d = m["dataset_metadata"]
        self.lang = d["language_code"]
        self.mapping = d["slot_name_mappings"]
        self.ext = {e: x["automatically_extensible"] for e, x in d["entities"].items()}
        self.known = sorted(self.mapping)
        r = drv.call("engine_load", h=handle, path=path)
        if r["r"] != "ok":
            raise core.ToolError("cannot load %s: %r" % (path, r))
        r = drv.call("res_load", h=handle + "/r", resources=os.path.join(path, "resources", self.lang),
                     builtin=os.path.join(path, m["builtin_entity_parser"]),
                     custom=os.path.join(path, m["custom_entity_parser"]))
        if r["r"] != "ok":
            raise core.ToolError("cannot load resources of %s: %r" % (path, r))
        self.parsers, self.listed = [], []
        for k, name in enumerate(m["intent_parsers"]):
            kind = json.load(open(os.path.join(path, name, "metadata.json")))["unit_name"]
            h = "%s/p%d" % (handle, k)
            r = drv.call("parser_load", h=h, kind=kind.split("_")[0], path=os.path.join(path, name), res=handle + "/r")
            if r["r"] != "ok":
                raise core.ToolError("cannot load parser %s: %r" % (name, r))
            self.parsers.append((h, kind))
            self.listed.append(listed_names(os.path.join(path, name), kind))
        self.handles = [handle, handle + "/r"] + [h for h, _ in self.parsers]

    def drop(self):
        for h in self.handles:
            self.drv.call("drop", h=h)

    # ---- what the entity parsers find
    def found(self, text, entity, sa):
        """Entities of one kind found in a text, as matches [s, e, len, val, alts]."""
        if entity in self.ext:
            r = self.drv.call("custom", h=self.h + "/r", text=text, kinds=[entity], sa=sa)
            if r["r"] != "ok":
                return r, []
            return r, [{"s": m["range"][0], "e": m["range"][1], "len": len(m["value"]),
                        "val": canon({"kind": "Custom", "value": m["resolved"]}),
                        "alts": [canon({"kind": "Custom", "value": a}) for a in m["alternatives"]]} for m in r["v"]]
        if entity not in BUILTIN_KINDS:
            return {"r": "err"}, []
        r = self.drv.call("builtin", h=self.h + "/r", text=text, kinds=[entity], cache=False, sa=sa)
        if r["r"] != "ok":
            return r, []
        return r, [{"s": m["range"][0], "e": m["range"][1], "len": len(m["value"]), "val": canon(m["entity"]),
                    "alts": [canon(a) for a in m["alternatives"]]} for m in r["v"]]

    def internal(self, text, slots, sa):
        out = []
        for s in slots:
            e = s["entity"]
            _, whole = self.found(text, e, sa)
            _, alone = self.found(s["value"], e, sa)
            out.append({"s": s["range"][0], "e": s["range"][1], "raw": codes(s["value"]), "entity": e, "slot": s["slotName"],
                        "rawval": canon({"kind": "Custom", "value": s["value"]}), "custom": e in self.ext,
                        "ext": self.ext.get(e, False), "whole": whole, "alone": alone})
        return out

    def names_of(self, r):
        """Which of the candidate names an error mentions."""
        text = " | ".join(r.get("chain", []))
        return text


def rslot(s):
    return {"s": s["range"]["start"], "e": s["range"]["end"], "raw": codes(s["rawValue"]), "entity": s["entity"],
            "slot": s["slotName"], "val": canon(s["value"]), "alts": [canon(a) for a in s["alternatives"]]}


def named(r, candidates):
    text = " | ".join(r.get("chain", []))
    return [c for c in candidates if (c or "''") in text]


def listing(r):
    return {"r": r["r"], "l": [{"i": iname(x["intentName"]), "s": micro(x["confidenceScore"])} for x in r["v"]]
            if r["r"] == "ok" else []}


def flt(l):
    return {"g": l is not None, "l": list(l or [])}


def observe_parse(e, text, wl, bl, ia, sa):
    drv = e.drv
    if wl is None and bl is None:
        eff = None
    else:
        eff = [i for i in e.known if (wl is None or i in wl) and (bl is None or i not in bl)]
    req = dict(op="parse", h=e.h, text=text, wl=wl, bl=bl, ia=ia, sa=sa)
    if ia == 0 and sa == 0 and len(text) % 2 == 0:
        req = dict(op="parse", h=e.h, text=text, wl=wl, bl=bl)
    r = drv.send(req)
    answers, mayfail = [], False
    for h, _ in e.parsers:
        a = drv.call("parser_parse", h=h, text=text, wl=eff)
        if a["r"] == "ok":
            answers.append({"r": "ok", "intent": iname(a["v"]["intent"]["intentName"]),
                            "score": micro(a["v"]["intent"]["confidenceScore"]),
                            "slots": e.internal(text, a["v"]["slots"], sa)})
        else:
            answers.append({"r": a["r"], "intent": NONE, "score": 0, "slots": []})
            mayfail = True
    ev = {"op": "parse", "known": e.known, "wl": flt(wl), "bl": flt(bl), "ia": ia, "sa": sa, "text": codes(text),
          "mapping": e.mapping, "ext": e.ext, "mayfail": mayfail, "culprits": [], "answers": answers,
          "listing": {"r": "none", "l": []}, "slotsOf": {}}
    if r["r"] == "ok":
        v = r["v"]
        ev["res"] = {"r": "ok", "names": [], "input": codes(v["input"]), "intent": iname(v["intent"]["intentName"]),
                     "score": micro(v["intent"]["confidenceScore"]), "slots": [rslot(s) for s in v["slots"]],
                     "alts": [{"i": iname(a["intent"]["intentName"]), "s": micro(a["intent"]["confidenceScore"]),
                               "slots": [rslot(s) for s in a["slots"]]} for a in v["alternatives"]]}
    else:
        ev["res"] = {"r": r["r"], "names": named(r, sorted(set((wl or []) + (bl or []) + e.known))), "input": [],
                     "intent": NONE, "score": 0, "slots": [], "alts": []}
    if ia > 0:
        ev["listing"] = listing(drv.call("get_intents", h=e.h, text=text))
        for a in ev["res"]["alts"]:
            if a["i"] != NONE:
                g = drv.call("get_slots", h=e.h, text=text, intent=a["i"], sa=sa)
                ev["slotsOf"][a["i"]] = {"r": g["r"], "l": [rslot(s) for s in g["v"]] if g["r"] == "ok" else []}
        if any(x["r"] == "err" for x in ev["slotsOf"].values()) or ev["listing"]["r"] == "err":
            ev["mayfail"] = True
        if r["r"] == "err":
            for i in e.known:
                if drv.call("get_slots", h=e.h, text=text, intent=i, sa=sa)["r"] == "err":
                    ev["mayfail"] = True
    # slots that cannot be resolved make the whole fail
    if r["r"] == "err" and any(not s["custom"] and s["entity"] not in BUILTIN_KINDS for a in answers for s in a["slots"]):
        ev["mayfail"] = True
    return ev, {"engine": e.path, "request": req, "reply": r}


def observe_intents(e, text):
    r = e.drv.call("get_intents", h=e.h, text=text)
    lists = [dict(listing(e.drv.call("get_intents", h=h, text=text)), want=want) for (h, _), want in zip(e.parsers, e.listed)]
    return {"op": "get_intents", "known": e.known, "lists": lists, "res": listing(r), "text": codes(text)}, \
        {"engine": e.path, "text": text, "reply": r}


def observe_slots(e, text, intent, sa):
    req = dict(op="get_slots", h=e.h, text=text, intent=intent, sa=sa)
    if sa == 0 and len(text) % 2:
        req["sa"] = None
    r = e.drv.send(req)
    answers = []
    for h, _ in e.parsers:
        a = e.drv.call("get_slots", h=h, text=text, intent=intent)
        answers.append({"r": a["r"], "slots": e.internal(text, a["v"], sa) if a["r"] == "ok" else []})
    return {"op": "get_slots", "known": e.known, "intent": intent, "sa": sa, "text": codes(text), "mapping": e.mapping,
            "answers": answers,
            "res": {"r": r["r"], "names": named(r, [intent] + e.known),
                    "slots": [rslot(s) for s in r["v"]] if r["r"] == "ok" else []}}, \
        {"engine": e.path, "request": req, "reply": r}


def observe_extract(e, text, intent, slot, sa):
    req = dict(op="extract_slot", h=e.h, text=text, intent=intent, slot=slot, sa=sa)
    if sa == 0 and len(text) % 2:
        req["sa"] = None
    r = e.drv.send(req)
    entity = e.mapping.get(intent, {}).get(slot)
    f, l = e.found(text, entity, sa) if entity is not None else ({"r": "ok"}, [])
    return {"op": "extract_slot", "mapping": e.mapping, "ext": e.ext, "intent": intent, "slot": slot, "sa": sa,
            "text": codes(text), "textval": canon({"kind": "Custom", "value": text}),
            "found": {"ok": f["r"] == "ok", "l": l},
            "res": {"r": r["r"], "names": named(r, [intent, slot]),
                    "slots": [rslot(r["v"])] if r["r"] == "ok" and r["v"] else []}}, \
        {"engine": e.path, "request": req, "reply": r}


def observe_entities(e, text, entity):
    """What the custom entity parser finds, with the values it knows."""
    toks = e.drv.call("tokenize", text=text, lang=e.lang)["v"]
    r = e.drv.call("custom", h=e.h + "/r", text=text, kinds=[entity], sa=5)
    return {"op": "custom", "tokens": [{"s": t["s"], "e": t["e"], "low": t["low"]} for t in toks],
            "values": [{"words": v.split(), "res": res} for v, res in gen.CUSTOM[entity]],
            "res": {"r": r["r"], "l": [{"s": m["range"][0], "e": m["range"][1], "res": m["resolved"], "alts": m["alternatives"]}
                                       for m in r["v"]] if r["r"] == "ok" else []}}, \
        {"engine": e.path, "text": text, "entity": entity, "reply": r}


# ------------------------------------------------------------------ engines
def scripted(d, known, sc):
    """The engine of a behaviour of EngineDesign: levels become coefficients and patterns."""
    mapping = {i: {"n": "snips/number"} for i in known}
    ps = []
    for k, (tab, kind) in enumerate(zip(sc["tab"], sc["kind"])):
        if kind == "stat":
            il = list(known) + [None]
            lev = [tab[i] for i in known] + [tab[NONE]]
            ps.append(("p%d" % k, lambda p, il=il, lev=lev: M.probabilistic(
                p, "en", dict(intent_list=il, intercept=[2.0 * x - 2.0 for x in lev], coeffs=[[0.0]] * len(il)),
                {i: dict(mapping=mapping[i], tags={"one": "B-n"}) for i in known})))
        else:
            pats = {i: {0: [], 1: ["^go (?P<group0>%SNIPSNUMBER%)$"], 2: ["^go one$"]}[tab[i]] for i in known}
            ps.append(("p%d" % k, lambda p, pats=pats: M.deterministic(p, "en", pats, {"group0": "n"}, mapping)))
    M.engine(d, "en", mapping, {}, ps)


def random_engine(rng, d, drv, w=None, partial=False, kinds=None):
    w = w or gen.World(rng)
    kinds = kinds or rng.choice([["det"], ["look"], ["prob"], ["det", "prob"], ["look", "prob"], ["look", "det", "prob"],
                        ["prob", "det"], ["prob", "prob"], ["det", "look"], ["prob", "look", "det"], []])
    ps = []
    for k, kind in enumerate(kinds):
        name = "%s_%d" % (kind, k)
        if kind == "det":
            args = w.deterministic()
            ps.append((name, lambda p, a=args: M.deterministic(p, w.lang, **a)))
        elif kind == "look":
            args = w.lookup(lambda t: drv.call("tokenize", text=t, lang=w.lang)["v"], partial)
            ps.append((name, lambda p, a=args: M.lookup(p, w.lang, **a)))
        else:
            args = w.probabilistic()
            ps.append((name, lambda p, a=args: M.probabilistic(p, w.lang, **a)))
    M.engine(d, w.lang, w.mapping, w.entities, ps, res=w.res())
    w.kinds = kinds
    return w


def random_filter(rng, known, ghost=0.05):
    r = rng.random()
    if r < 0.4:
        return None
    l = rng.sample(known, rng.randint(0, len(known)))
    if l and rng.random() < 0.1:
        l.insert(rng.randint(0, len(l)), rng.choice(l))
    if l and rng.random() < 0.05:
        l = l * rng.randint(2, 40)      # the same names many times over
    if rng.random() < ghost:
        l.insert(rng.choice([0, len(l), rng.randint(0, len(l))]), rng.choice(["ghost", "", "Ghost intent", (known or ["x"])[0].upper() + "x"]))
    return l


REPO_TEXTS = ["make me two cups of coffee", "I want four cups of hot tea please", "Prepare three cups of tea", "make tea",
              "brew two cups of coffee", "prepare me one cup of iced tea", "Make me TWO  cups of coffee please!", "",
              "coffee", "i'd like to listen to the beatles", "I want to play to invader 2", "play some jazz music"]


def repo_engines():
    base = os.path.join(core.REPO, "data", "tests", "models")
    for n in sorted(os.listdir(base)) if os.path.isdir(base) else []:
        p = os.path.join(base, n)
        if os.path.exists(os.path.join(p, "nlu_engine.json")):
            yield p


# ------------------------------------------------------------------ corruptions: what the specification must reject
def corruptions(events, prop):
    """Alters one recorded field of an accepted event so that the property fails."""
    out = []
    import copy

    def first(pred):
        return next((copy.deepcopy(ev) for ev in events if pred(ev)), None)
    ok_parse = lambda ev: ev["op"] == "parse" and ev["res"]["r"] == "ok"
    if prop == "C01":
        ev = first(lambda ev: ok_parse(ev) and ev["wl"]["g"] and ev["wl"]["l"] and ev["res"]["intent"] in ev["wl"]["l"] and not ev["bl"]["g"])
        if ev:
            ev["wl"]["l"] = [i for i in ev["wl"]["l"] if i != ev["res"]["intent"]]
            out.append(ev)
    elif prop == "C02":
        ev = first(lambda ev: ok_parse(ev) and ev["wl"]["g"])
        if ev:
            ev["wl"]["l"] = ev["wl"]["l"] + ["ghost"]
            out.append(ev)
    elif prop == "C03":
        ev = first(lambda ev: ok_parse(ev) and ev["res"]["intent"] != NONE)
        if ev:
            ev["res"]["score"] += 1000
            out.append(ev)
    elif prop == "C04":
        ev = first(lambda ev: ok_parse(ev) and len(ev["res"]["alts"]) > 1)
        if ev:
            ev["res"]["alts"].pop()
            out.append(ev)
    elif prop == "C05":
        ev = first(lambda ev: ev["op"] == "get_intents" and len(ev["res"]["l"]) > 1)
        if ev:
            ev["res"]["l"].pop()
            out.append(ev)
    elif prop == "C06":
        ev = first(lambda ev: ok_parse(ev) and ev["res"]["slots"])
        if ev:
            ev["res"]["slots"][0]["raw"] = ev["res"]["slots"][0]["raw"] + [33]
            out.append(ev)
    elif prop == "C07":
        ev = first(lambda ev: ok_parse(ev) and ev["res"]["slots"])
        if ev:
            ev["res"]["slots"].append(ev["res"]["slots"][0])
            out.append(ev)
    elif prop == "C08":
        ev = first(lambda ev: ok_parse(ev) and ev["res"]["slots"])
        if ev:
            ev["res"]["slots"][0]["val"] = canon({"kind": "Custom", "value": "other"})
            out.append(ev)
        ev = first(lambda ev: ev["op"] == "get_slots" and ev["res"]["slots"])
        if ev:
            ev["res"]["slots"].pop()
            out.append(ev)
        ev = first(lambda ev: ev["op"] == "custom" and ev["res"]["r"] == "ok" and ev["res"]["l"])
        if ev:
            ev["res"]["l"][0]["res"] = ev["res"]["l"][0]["res"] + [33] if isinstance(ev["res"]["l"][0]["res"], list) else "other"
            out.append(ev)
    elif prop == "C09":
        ev = first(lambda ev: ev["op"] == "extract_slot" and ev["res"]["slots"] and ev["found"]["l"])
        if ev:
            ev["res"]["slots"] = []
            out.append(ev)
    return out


OPS = {"C01": ("parse",), "C02": ("parse",), "C03": ("parse", "parse", "get_slots"), "C04": ("parse",), "C05": ("get_intents",),
       "C06": ("parse", "get_slots", "extract_slot", "custom"), "C07": ("parse", "get_slots"),
       "C08": ("parse", "get_slots", "custom"), "C09": ("extract_slot",)}


RESOLVE = """SPECIFICATION Spec
CONSTANTS Words = {%s} MaxText = %d MaxDict = 2 Careless = %s
INVARIANTS C08_OpenKept C08_Known C08_KnownKept C08_Builtin C08_Order C08_AsSpecified %s
CHECK_DEADLOCK FALSE
"""
# spellings of the words of ResolveDesign: as written, as known
SPELT = {"a": [("coffee", "coffee"), ("Tea", "tea"), ("42", "42"), ("\u65e5\u672c", "\u65e5\u672c")],
         "b": [("york", "york"), ("caf\u00e9", "caf\u00e9"), ("X", "x")],
         "w": [("STRA\u1e9eE", "stra\u00dfe"), ("\u212aino", "kino"), ("\u023aB", "\u2c65b"), ("\u212bR", "\u00e5r"), ("CAF\u00c9S", "caf\u00e9s"),
               ("Stra\u00dfe", "stra\u00dfe"), ("\u1e9e", "\u00df")]}


def resolutions(ctx, add, how):
    """The behaviours of ResolveDesign: an engine that knows the phrases, a pattern whose groups are the slots."""
    rng, drv = ctx.rng, ctx.driver()
    dump = os.path.join(ctx.dir, "resolutions.csv")
    ctx.model_check("ResolveDesign", RESOLVE % ('"a", "w"' if not ctx.thorough() else '"a", "b", "w"', 3, "FALSE", "Export"),
                    env={"DUMP": dump}, timeout=3000)
    ctx.refute("ResolveDesign", RESOLVE % ('"a", "w"', 2, "TRUE", ""), "C08_Known", "the careless resolution")
    todo = sorted({l.strip() for l in open(dump)})
    ctx.notes["resolutions_of_the_design"] = len(todo)
    rng.shuffle(todo)
    for line in todo[:ctx.pick(700, 6000)]:
        b = json.loads(json.loads(line) if line.startswith('"') else line)
        word = {w: rng.choice(l) for w, l in SPELT.items()}
        entity = "snips/number" if b["kind"] == "builtin" else "entit\u00e9"
        phrases = [" ".join(word[w][1] for w in p) for p in b["dict"]]
        custom = [(p, r) for n, p in enumerate(phrases) for r in [p.upper(), p, "v%d" % n, "u%d" % n][:rng.randint(1, 4)]]
        builtin = [{"phrase": p, "kind": "snips/number", "value": {"kind": "Number", "value": 10.0 * n},
                    "alternatives": [{"kind": "Number", "value": 10.0 * n + k} for k in range(1, rng.randint(1, 4))]}
                   for n, p in enumerate(phrases)]
        text, at = "", []
        for n, w in enumerate(b["text"]):
            text += rng.choice(["", "", " ", "- "]) if n == 0 else rng.choice([" ", " ", "  ", "\u00a0", "\t "])
            at.append([len(text)])
            text += word[w][0]
            at[-1].append(len(text))
        parts, names = [gen.esc(word[w][1]) for w in b["text"]], {}
        for n, (s, t) in enumerate(b["ranges"]):
            names["group%d" % n] = "s%d" % n
            parts[s] = "(?P<group%d>" % n + parts[s]
            parts[t - 1] += ")"
        mapping = {"i": {x: entity for x in names.values()}}
        d = ctx.fresh_dir("res")
        M.engine(d, "en", mapping, {} if b["kind"] == "builtin" else {entity: b["kind"] == "open"},
                 [("p", lambda p: M.deterministic(p, "en", {"i": ["^[\\s-]*" + "\\s*".join(parts) + "\\s*$"]}, names, mapping))],
                 res=dict(custom={} if b["kind"] == "builtin" else {entity: custom}, builtin=builtin if b["kind"] == "builtin" else []))
        e = Loaded(drv, d, "r")
        sa = rng.choice([0, 1, 1, 2, 5])
        if "parse" in how:
            add(observe_slots(e, text, "i", sa) if rng.random() < 0.7 else observe_parse(e, text, None, None, 0, sa))
        if "extract_slot" in how:
            add(observe_extract(e, text, "i", "s0", sa))
        e.drop()
        shutil.rmtree(d, ignore_errors=True)


LISTS = """SPECIFICATION Spec
CONSTANTS N = %d Careless = %s
INVARIANTS C03_FirstWithSlots C03_OneParser C33_FailuresSeen C03_LaterNotAsked NeverStuck %s
CHECK_DEADLOCK FALSE
"""


def slot_lists(ctx, add):
    """The behaviours of SlotListDesign: parsers that tag other words of the same text."""
    rng, drv = ctx.rng, ctx.driver()
    dump = os.path.join(ctx.dir, "lists.csv")
    n = 4 if ctx.thorough() else 3
    ctx.model_check("SlotListDesign", LISTS % (n, "FALSE", "Export"), env={"DUMP": dump})
    ctx.refute("SlotListDesign", LISTS % (2, "TRUE", ""), "C03_FirstWithSlots", "the careless listing")
    todo = sorted({l.strip() for l in open(dump)})
    values = ["tea", "coffee", "juice", "wine"]
    mapping = {"i": {"s": "drink", "t": "drink"}, "j": {"s": "drink"}}
    for line in todo:
        does = json.loads(json.loads(line) if line.startswith('"') else line)
        words = ["go"] + ["w%s" % "abcd"[p] for p in range(n)] + values[:n]
        rng.shuffle(words)
        words.insert(rng.randint(0, len(words)), "boom")
        ps = []
        for p, what in enumerate(does):
            tags = {}
            if what in ("left", "both"):
                tags["w%s" % "abcd"[p]] = "B-s"
            if what in ("kept", "both"):
                tags[values[p]] = "B-t"
            filler = dict(mapping=mapping["i"], tags=tags, script={"fail_on": "ngram_1:boom"} if what == "fails" else None)
            clf = dict(intent_list=["i", "j", None], intercept=[rng.uniform(-1, 2), -3.0, rng.uniform(-1, 2)], coeffs=[[0.0]] * 3)
            ps.append(("p%d" % p, lambda q, clf=clf, filler=filler: M.probabilistic(
                q, "en", clf, {"i": filler, "j": dict(mapping=mapping["j"])})))
        d = ctx.fresh_dir("list")
        M.engine(d, "en", mapping, {"drink": False}, ps, res=dict(custom={"drink": [(v, v.upper()) for v in values]}))
        e = Loaded(drv, d, "l")
        text = " ".join(words)
        add(observe_slots(e, text, "i", rng.choice([0, 0, 2])))
        add(observe_parse(e, text, None, None, 0, 0))
        e.drop()
        shutil.rmtree(d, ignore_errors=True)
    ctx.notes["slot_listings_replayed"] = len(todo)


def check(ctx):
    core.build()
    prop, rng, drv = ctx.prop, ctx.rng, ctx.driver()
    ops = OPS[prop]
    # 1. the design
    if "parse" in ops or prop == "C05":
        design(ctx)
    events, sources = [], []

    def add(pair):
        events.append(pair[0])
        sources.append(pair[1])

    # 2. behaviours of the design, replayed
    if prop in ("C01", "C02", "C03", "C04", "C05"):
        for known, sc in scenarios(ctx, ctx.pick(500, 3000)):
            d = ctx.fresh_dir("sc")
            scripted(d, known, sc)
            e = Loaded(drv, d, "s")
            wl = sc["wl"]["l"] if sc["wl"]["g"] else None
            bl = sc["bl"]["l"] if sc["bl"]["g"] else None
            if prop == "C05":
                add(observe_intents(e, "go one"))
            else:
                add(observe_parse(e, "go one", wl, bl, sc["ia"], 0))
            shutil.rmtree(d, ignore_errors=True)
        ctx.notes["behaviours_replayed"] = len(events)
    if prop in ("C06", "C08", "C09"):
        resolutions(ctx, add, ops)
        ctx.notes["resolutions_replayed"] = len(events)
    if prop == "C03":
        slot_lists(ctx, add)
    # 3. random engines and the models of the repository
    engines = []
    for n in range(ctx.pick(180, 1500)):
        d = ctx.fresh_dir("eng")
        w = random_engine(rng, d, drv, kinds=["prob"] if prop in ("C07", "C08") and rng.random() < 0.5 else None, partial=prop == "C05" and rng.random() < 0.3)
        engines.append((d, w))
    shadowed = []
    for n in range(ctx.pick(12, 100) if prop in ("C03", "C08") else 0):
        # slots that are all left out, while a later parser would find better ones
        w = gen.World(rng, stop=False, odd=False)
        w.shadow, w.odd_patterns, w.entities = True, False, dict.fromkeys(w.entities, False)
        d = ctx.fresh_dir("eng")
        random_engine(rng, d, drv, w=w, kinds=["prob", rng.choice(["det", "look", "det", "prob"])])
        engines.append((d, w))
        shadowed.append(w)
    crowds = []
    for n in range(ctx.pick(2, 12) if prop in ("C01", "C02", "C03", "C04", "C05") else 0):      # many intents
        w = gen.World(rng, n_intents=45, names=["skill%02d" % k for k in range(45)])
        w.threshold = 1.0
        d = ctx.fresh_dir("eng")
        random_engine(rng, d, drv, w=w, kinds=rng.choice([["prob"], ["det", "prob"], ["prob", "look"]]))
        engines.append((d, w))
        crowds.append(w)
    for p in repo_engines():
        engines.append((p, None))
    for d, w in engines:
        try:
            e = Loaded(drv, d, "e")
        except core.ToolError:
            if w is not None:
                raise
            continue                   # files of this model are missing in the repository
        for n in range(ctx.pick(14, 30)):
            text = w.text() if w else rng.choice(REPO_TEXTS)
            op = rng.choice(ops)
            if w and rng.random() < 0.012:         # far from the beginning of the text
                text = "go the " * rng.choice([40, 90, 150]) + text
            if w in crowds:
                if n >= 6:
                    break
                if prop == "C05":
                    add(observe_intents(e, text))
                else:
                    wl, bl = random_filter(rng, e.known, 0.1 * (prop == "C02")), random_filter(rng, e.known, 0.1 * (prop == "C02"))
                    add(observe_parse(e, text, wl, bl, rng.choice([0, 12, 20, 36, 44, 90]), 0))
                continue
            if w in shadowed:
                text = w.text(clean=True)
                for i in e.known:
                    add(observe_slots(e, text, i, rng.choice([0, 2])))
                continue
            if op == "parse":
                ia = rng.choice([0, 0, 1, 2, 3, 9]) if prop != "C04" else rng.choice([1, 1, 2, 3, 5, 9, 0])
                if prop in ("C01", "C02"):
                    wl, bl = random_filter(rng, e.known, 0.15), random_filter(rng, e.known, 0.1)
                else:
                    wl, bl = (None, None) if rng.random() < 0.5 else (random_filter(rng, e.known, 0), random_filter(rng, e.known, 0))
                add(observe_parse(e, text, wl, bl, ia, rng.choice([0, 0, 1, 2, 5])))
            elif op == "get_intents":
                add(observe_intents(e, text))
            elif op == "get_slots":
                add(observe_slots(e, text, rng.choice(e.known * 6 + ["ghost"]), rng.choice([0, 0, 1, 2, 5])))
            elif op == "extract_slot":
                i = rng.choice(e.known * 8 + ["ghost"])
                s = rng.choice(sorted(e.mapping.get(i, {})) * 8 + ["ghost slot"])
                if rng.random() < 0.5 and s in e.mapping.get(i, {}) and w:
                    text += " " + rng.choice(gen.entity_values(e.mapping[i][s])).title()
                add(observe_extract(e, text, i, s, rng.choice([0, 0, 1, 2, 5])))
            elif op == "custom" and w:
                text = text + " " + rng.choice([v for x in gen.CUSTOM.values() for v, _ in x]).title().replace(" ", rng.choice([" ", " ", "  ", " \t\u00a0", ", "]))
                add(observe_entities(e, text, rng.choice(sorted(gen.CUSTOM))))
        e.drop()
        if w is not None:
            shutil.rmtree(d, ignore_errors=True)
    for ev in events[-200::40]:
        ctx.sample(json.dumps({k: ev[k] for k in ("op", "res") if k in ev})[:400])
    ctx.judge("EngineTrace", events, sources)
    bad = corruptions(events, prop)
    ctx.demonstrate_binding("EngineTrace", events, bad)


def design(ctx, known=None):
    if ctx.thorough():
        inst = [(["a", "b"], 2, "{0, 1, 2}", 3), (["a", "b", "c"], 1, "{0, 1, 2}", 3), (["a", "b", "c"], 2, "{0, 1}", 2)]
    else:
        inst = [(["a", "b"], 2, "{0, 2}", 2), (["a", "b"], 1, "{0, 1, 2}", 3)]
    for known, n, levels, ma in inst:
        ctx.model_check("EngineDesign", """SPECIFICATION Spec
CONSTANTS Known = {%s} NParsers = %d Levels = %s MaxAlt = %d
INVARIANTS C01_FiltersSound C02_Refusal C03_FirstAnswers C03_NoneAnswer C04_Alternatives C05_Listing NeverStuck
CHECK_DEADLOCK FALSE
""" % (", ".join('"%s"' % k for k in known), n, levels, ma), timeout=3000)


def scenarios(ctx, num):
    """Complete behaviours of EngineDesign drawn by TLC."""
    out, seen = [], set()
    for known, n in ((["a", "b"], 2), (["a", "b", "c"], 2), (["a", "b"], 3)):
        dump = os.path.join(ctx.dir, "behaviours%d%d.csv" % (len(known), n))
        ctx.simulate("EngineDesign", """SPECIFICATION SimSpec
CONSTANTS Known = {%s} NParsers = %d Levels = {0, 1, 2} MaxAlt = 4
INVARIANTS Export
CHECK_DEADLOCK FALSE
""" % (", ".join('"%s"' % k for k in known), n), env={"DUMP": dump}, num=num // 3, depth=16)
        for line in open(dump):
            line = line.strip()
            if line.startswith('"'):
                line = json.loads(line)
            if line and line not in seen:
                seen.add(line)
                out.append((known, json.loads(line)))
    ctx.notes["behaviours_generated"] = len(out)
    return out
