"""Checks of what past or concurrent calls change: C16 (history), C17 (threads)."""
import json, os, shutil
from . import core, engine, gen, models as M
from .engine import canon


def esc(s):
    return json.dumps(s)[1:-1]


def check(ctx):
    core.build()
    (check_history if ctx.prop == "C16" else check_threads)(ctx)


def settle(v):
    """Puts intents of equal scores in a fixed order: the library gives them in any order."""
    if isinstance(v, list) and v and isinstance(v[0], dict) and "intentName" in v[0]:
        return sorted(v, key=lambda x: (-x["confidenceScore"], x["intentName"] or ""))
    if isinstance(v, dict) and "alternatives" in v and "input" in v:
        return dict(v, alternatives=sorted(v["alternatives"], key=lambda a: (-a["intent"]["confidenceScore"],
                                                                           a["intent"]["intentName"] or "")))
    return v


def outcome(r):
    """What a caller sees of a reply."""
    return canon(settle(r["v"])) if r["r"] == "ok" else r["r"] + " " + canon(r.get("chain", r.get("m")))


# ------------------------------------------------------------------ C16
CFG = """SPECIFICATION Spec
CONSTANTS Texts = {%s} Kinds = {"k", "l"} Alts = {%s} Cap = 2 MaxSteps = %d
%s
CHECK_DEADLOCK FALSE
"""
SCOPES = {"builtin": [(["snips/number"], ["snips/number", "snips/ordinal"]), (["snips/ordinal"], ["snips/number", "snips/ordinal"]),
                       (None, []), (None, ["snips/number"]), ([], ["snips/ordinal"]), (["snips/number"], ["snips/ordinal"])],
          "custom": [(None, []), (None, ["drink"]), ([], ["city"]), (["city", "drink"], ["city", "level"]), (["city"], ["city", "drink"]), (["city"], ["drink", "city"]), (["drink"], ["city"])]}
WORDS = {"builtin": {"x": "two hundred", "y": "first ten", "z": "42", "bad": "parsererror one"},
         "custom": {"x": "new york city", "y": "coffee paris", "z": "x", "bad": "parsererror paris"}}
BLOCK = 500
CAPACITY = 1000


def block_text(family, t, i):
    up = t.isupper()
    w = WORDS[family][t.lower() if up else t]
    text = "%d %s %s" % (i, w, "abcdefgh"[i % 8])
    return text.upper() if up and "parsererror" not in text else text


def check_history(ctx):
    rng, drv = ctx.rng, ctx.driver()
    ctx.model_check("CacheDesign", CFG % ('"x", "X", "y", "bad"', ctx.pick("0, 1", "0, 1, 4"), ctx.pick(5, 6), "INVARIANTS C16_Fresh C16_Bound FailuresNotKept\nVIEW View"))
    ctx.model_check("CacheDesign", CFG % ('"x", "X", "bad"', "0, 1, 4", ctx.pick(3, 4), "INVARIANTS C16_Observable"))
    dump = os.path.join(ctx.dir, "behaviours.csv")
    steps = ctx.pick(12, 16)
    ctx.simulate("CacheDesign", CFG % ('"x", "X", "y", "Z", "bad"', "0, 1, 2, 4", steps, "INVARIANT Export"), env={"DUMP": dump},
                 num=ctx.pick(14, 80), depth=steps + 2)
    d = ctx.fresh_dir("res")
    paths = M.resources(d, "en", custom=gen.CUSTOM, builtin=gen.builtin_table())
    events, sources = [], []
    fresh_known = {}

    def load(h):
        r = drv.call("res_load", h=h, **paths)
        if r["r"] != "ok":
            raise core.ToolError("%r" % r)

    def question(h, family, scope, req, i, cached):
        kw = {"cache": cached} if family == "builtin" else {}
        return dict(op=family, h=h, text=block_text(family, req["t"], i), kinds=scope["kl".index(req["k"])], sa=req["a"], **kw)

    def ask(h, family, scope, req, order, cached):
        """The outcomes of the requests of a block, asked in the given order"""
        order = list(order)
        r = drv.send({"op": "threads", "threads": [[question(h, family, scope, req, i, cached) for i in order]]})
        replies = r["v"][0] if r["r"] == "ok" else [r] * len(order)
        return dict(zip(order, map(outcome, replies)))

    def fresh(family, scope, req):
        """The answers for a block: those of an engine that was asked nothing else; some of an engine just loaded."""
        key = (family, req["t"], str(scope["kl".index(req["k"])]), req["a"])
        if key not in fresh_known:
            load("f")
            found = ask("f", family, scope, req, range(BLOCK), True)
            fresh_known[key] = [found[i] for i in range(BLOCK)]
            for i in rng.sample(range(BLOCK), 4):
                load("f")
                alone = ask("f", family, scope, req, [i], True)[i]
                if alone != fresh_known[key][i]:
                    fresh_known[key][i] = alone + " (alone)"
        return fresh_known[key]

    lines = [line.strip() for line in open(dump)]
    todo = [json.loads(json.loads(l) if l.startswith('"') else l) for l in sorted(set(lines))]
    # more different requests than answers can be kept, then the same from the last to the first
    sweep = [{"req": {"t": t, "k": k, "a": 0}, "cached": True} for t in ("x", "y", "z") for k in "kl"]
    back = [dict(s, rev=True) for s in sweep[::-1]]
    todo[:0] = [sweep + back + sweep, sweep[:3] + back[3:] + sweep[:3] + back] * 2
    todo = [(family, rng.choice(SCOPES[family]), hist)
            for n, hist in enumerate(todo) for family in ("custom" if n % 4 < 2 else "builtin",)]
    # the same texts with another scope or number of alternatives, one right after the other
    for family in SCOPES:
        for scope in SCOPES[family]:
            for ks, t in (("kl", "x"), ("lk", "y")):
                todo.append((family, scope, [{"req": {"t": t, "k": k, "a": a}, "cached": True}
                                             for k, a in ((ks[0], 4), (ks[1], 4), (ks[1], 2), (ks[0], 2), (ks[0], 0), (ks[1], 0))]))
    for family, scope, hist in todo:
        load("h")
        drv.call("calls_start")
        out = []
        for s in hist:
            cached = s["cached"] or family == "custom"
            want = fresh(family, scope, s["req"])
            drv.call("calls")
            order = range(BLOCK - 1, -1, -1) if s.get("rev") else range(BLOCK)
            replies = ask("h", family, scope, s["req"], order, cached)
            got = [replies[i] for i in range(BLOCK)]
            made = len(drv.call("calls")["v"])
            differ = [i for i in range(BLOCK) if got[i] != want[i]]
            req = s["req"]
            out.append({"key": esc("%s|%s|%d" % (req["t"].lower(), req["k"], req["a"])), "hits": max(0, BLOCK - made),
                        "cached": cached, "got": "same" if not differ else "%d %s" % (differ[0], got[differ[0]]),
                        "fresh": "same" if not differ else "%d %s" % (differ[0], want[differ[0]]), "req": req})
        events.append({"op": "hist", "cap": CAPACITY, "steps": out})
        sources.append({"family": family, "scope": scope, "history": hist, "block": BLOCK})
    ctx.notes["histories_replayed"] = len(events)
    ctx.notes["requests_in_histories"] = sum(len(ev["steps"]) for ev in events) * BLOCK
    ctx.notes["answers_kept_seen"] = sum(s["hits"] for ev in events for s in ev["steps"])
    # whole engines: each answer is that of an engine just loaded
    for n in range(ctx.pick(20, 200)):
        d = ctx.fresh_dir("eng")
        w = engine.random_engine(rng, d, drv)
        r = drv.call("engine_load", h="e", path=d)
        if r["r"] != "ok":
            raise core.ToolError("%r" % r)
        texts = [w.text(clean=rng.random() < 0.6) for _ in range(4)]
        texts += [t.upper() for t in texts if "\u00df" not in t] + [t.lower() for t in texts] + ["parsererror " + texts[0]]
        if n % 3 == 0:                     # texts that differ only far from where they begin, or only between words
            texts += ["go the " * 25 + t for t in (texts[:4] + [rng.choice([v for l in gen.CUSTOM.values() for v, _ in l]) for _ in range(3)]
                                                   + ["two hundred", "first ten"])] * 2
            texts += [t.replace(" ", "  ") for t in texts[:3]] + [" " + texts[0], texts[1] + "  "]
        past = []
        for _ in range(ctx.pick(25, 60)):
            req = random_request(rng, w, rng.choice(texts))
            got = drv.send(dict(req, h="e"))
            drv.call("engine_load", h="f", path=d)
            want = drv.send(dict(req, h="f"))
            past.append(req)
            events.append({"op": "call", "r": got["r"], "got": outcome(got), "fresh": outcome(want)})
            sources.append({"engine": d, "past": list(past), "got": got, "fresh": want})
        shutil.rmtree(d, ignore_errors=True)
    for ev in events[-40::10]:
        ctx.sample(json.dumps(ev)[:300])
    ctx.judge("CacheTrace", events, sources)
    h = next(ev for ev in events if ev["op"] == "hist")
    a = json.loads(json.dumps(h))
    a["steps"][-1]["hits"] = 1001
    b = json.loads(json.dumps(h))
    b["steps"][0]["got"] = "other"
    ctx.demonstrate_binding("CacheTrace", events, [a, b])


def random_request(rng, w, text):
    op = rng.choice(["parse", "parse", "parse", "get_intents", "get_slots", "extract_slot"])
    req = {"op": op, "text": text}
    if op == "parse":
        req.update(wl=engine.random_filter(rng, w.intents, 0.05), bl=engine.random_filter(rng, w.intents, 0.05),
                   ia=rng.choice([0, 0, 99]), sa=rng.choice([0, 1, 2, 5]))
    elif op == "get_slots":
        req.update(intent=rng.choice(w.intents), sa=rng.choice([0, 1, 2, 5]))
    elif op == "extract_slot":
        i = rng.choice(w.intents)
        req.update(intent=i, slot=rng.choice(sorted(w.mapping[i]) or ["x"]), sa=rng.choice([0, 1, 2, 5]))
    return req


# ------------------------------------------------------------------ C17
def check_threads(ctx):
    rng = ctx.rng
    ctx.model_check("ThreadsDesign", """SPECIFICATION Spec
CONSTANTS Threads = {%s} Texts = {1, 2} Cap = 1 Broken = FALSE
INVARIANTS C17_Alone C17_Exclusion
PROPERTIES C17_AllEnd
""" % ctx.pick('"t1", "t2", "t3"', '"t1", "t2", "t3", "t4"'), timeout=3000)
    # the same without the lock around "give the features, then decode" must fail: the model can see this kind of bug
    ctx.refute("ThreadsDesign", """SPECIFICATION Spec
CONSTANTS Threads = {"t1", "t2"} Texts = {1, 2} Cap = 1 Broken = TRUE
INVARIANTS C17_Alone
""", "C17_Alone", "the model without a lock")
    events, sources = [], []
    drv = core.Driver(env={"VERIF_JITTER_US": "600"}, timeout=40)
    base = core.Driver()
    rounds = 0
    for n in range(ctx.pick(14, 120)):
        d = ctx.fresh_dir("eng")
        w = None
        while w is None or not w.kinds:
            shutil.rmtree(d, ignore_errors=True)
            w = engine.random_engine(rng, d, base)
        slow_taggers(rng, d)
        texts = [w.text(clean=rng.random() < 0.6) for _ in range(5)]
        texts += [texts[0].lower(), "parsererror " + texts[0]]
        for _ in range(ctx.pick(4, 10)):
            nt = rng.choice([2, 3, 4, 8])
            pool = [random_request(rng, w, rng.choice(texts)) for _ in range(6)]
            lists = [[rng.choice(pool) for _ in range(rng.randint(2, 6))] for _ in range(nt)]
            # separate parts of one engine share its resources
            kind = rng.choice(["engine", "engine", "two"])
            alone, known = [], {}
            for l in lists:
                row = []
                for req in l:
                    key = canon(req)
                    if key not in known:
                        base.call("engine_load", h="b", path=d)
                        known[key] = outcome(base.send(dict(req, h="b")))
                    row.append(known[key])
                alone.append(row)
            for h in ("e0", "e1"):
                r = drv.call("engine_load", h=h, path=d)
                if r["r"] not in ("ok",):
                    raise core.ToolError("%r" % r)
            r = drv.send({"op": "threads", "threads": [[dict(q, h="e%d" % (t % 2 if kind == "two" else 0)) for q in l]
                                                       for t, l in enumerate(lists)]})
            mixed = drv.call("overlap").get("v", False)
            ev = {"op": "threads", "r": r["r"], "got": [], "alone": alone, "mixed": bool(mixed)}
            if r["r"] == "ok":
                ev["got"] = [[outcome(x) for x in l] for l in r["v"]]
            events.append(ev)
            sources.append({"engine": d, "threads": lists, "reply": r})
            rounds += sum(map(len, lists))
            if r["r"] != "ok":
                drv.close()
                drv = core.Driver(env={"VERIF_JITTER_US": "600"}, timeout=40)
            if len([e for e in events if e["r"] == "hang"]) > 2:
                break
        shutil.rmtree(d, ignore_errors=True)
    pinned = core.Driver(env={"VERIF_JITTER_US": "600"}, timeout=60, one_cpu=True)
    # sequence probabilities computed on a shared slot filler
    d = ctx.fresh_dir("sf")
    paths = M.resources(d, "en", custom={})
    M.slot_filler(os.path.join(d, "f"), "en", "i", {"a": "city"}, {"go": "B-a", "one": "I-a"}, 1, script={"set_sleep_us": 300})
    for x in (drv, base, pinned):
        x.call("res_load", h="r", **paths)
        x.call("sf_load", h="f", path=os.path.join(d, "f"), res="r")
    for n in range(ctx.pick(60, 400)):
        runner = (drv, pinned)[n % 2]       # on one processor, a thread that waited runs as soon as it may
        lists = [[dict(op="sf_prob", h="f", text=t, lang="en", tags=[rng.choice(["O", "B-a", "I-a"]) for _ in t.split()])
                  if rng.random() < 0.6 else dict(op="get_slots", h="f", text=t)
                  for t in rng.sample(["go one", "one go", "x y", "go go", "go one two", "two"], 3)] for _ in range(6)]
        alone = [[outcome(base.send(q)) for q in l] for l in lists]
        r = runner.send({"op": "threads", "threads": lists})
        ev = {"op": "threads", "r": r["r"], "got": [], "alone": alone, "mixed": bool(runner.call("overlap").get("v", False))}
        if r["r"] == "ok":
            ev["got"] = [[outcome(x) for x in l] for l in r["v"]]
        events.append(ev)
        sources.append({"slot filler": True, "threads": lists, "reply": r})
        rounds += 18
        if r["r"] != "ok":
            break
    drv.close()
    pinned.close()
    base.close()
    ctx.notes["concurrent_calls"] = rounds
    for ev in events[:3]:
        ctx.sample(json.dumps(ev)[:300])
    ctx.judge("CacheTrace", events, sources)
    bad = json.loads(json.dumps(events[0]))
    bad["got"][0][0] = "other"
    bad2 = json.loads(json.dumps(events[0]))
    bad2["r"] = "hang"
    ctx.demonstrate_binding("CacheTrace", events, [bad, bad2])


def slow_taggers(rng, d):
    """Taggers that let other threads run between the moment they get the features and the moment they decode."""
    for root, _, files in os.walk(d):
        if "model.crfsuite" in files:
            p = os.path.join(root, "model.crfsuite")
            m = json.load(open(p))
            m["set_sleep_us"] = rng.choice([50, 300, 1000])
            json.dump(m, open(p, "w"))
