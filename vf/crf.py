"""Checks of the sequence tagger's tags: C10 (decoding) and C29 (probability of a sequence)."""
import json, math, os, shutil
from . import core, models as M
from .core import codes

NAMES = {"a": "city", "b": "snips/number", "slot \u00e9": "drink"}


def tag_text(t):
    return "O" if t["m"] == "O" else "%s-%s" % (t["m"], t["n"])


def check(ctx):
    core.build()
    (check_tags if ctx.prop == "C10" else check_prob)(ctx)


def check_tags(ctx):
    drv, rng = ctx.driver(), ctx.rng
    # every sequence of tags of each scheme, explored and exported by TLC
    dump = os.path.join(ctx.dir, "tags.csv")
    inst = ctx.pick([("{0}", 6), ("{1}", 5), ("{2}", 4)], [("{0}", 8), ("{1}", 6), ("{2}", 5)])
    for schemes, n in inst:
        ctx.model_check("CrfDesign", """SPECIFICATION Spec
CONSTANTS SlotNames = {"a", "b"} MaxLen = %d Schemes = %s
INVARIANTS C10_MaximalRuns C10_Partition C10_InOrder Export
CHECK_DEADLOCK FALSE
""" % (n, schemes), env={"DUMP": dump}, timeout=3000)
    seqs = []
    for line in open(dump):
        line = line.strip()
        seqs.append(json.loads(json.loads(line) if line.startswith('"') else line))
    ctx.notes["tag_sequences_of_the_design"] = len(seqs)
    words = {}            # tag text -> word, per filler
    d = ctx.fresh_dir("res")
    paths = M.resources(d, "en", custom={})
    drv.call("res_load", h="r", **paths)
    for scheme, marks in ((0, "I"), (1, "BI"), (2, "BILU")):
        tags = {}
        for k, (m, n) in enumerate([(m, n) for m in marks for n in NAMES]):
            for style in ("w%d", "caf\u00e9%d", "\u65e5\u672c%d"):
                tags[style % k] = "%s-%s" % (m, n)
        words[scheme] = {}
        for w, t in tags.items():
            words[scheme].setdefault(t, []).append(w)
        words[scheme]["O"] = ["go", "the", "\u00e9t\u00e9"]
        tags = {drv.call("tokenize", text=w, lang="en")["v"][0]["n"]: t for w, t in tags.items()}
        p = os.path.join(d, "filler%d" % scheme)
        M.slot_filler(p, "en", "i", NAMES, tags, scheme)
        expect_ok(drv.call("sf_load", h="f%d" % scheme, path=p, res="r"))
        M.slot_filler(p + "x", "en", "i", {"a": "city"}, tags, scheme)
        expect_ok(drv.call("sf_load", h="g%d" % scheme, path=p + "x", res="r"))
        M.slot_filler(p + "n", "en", "i", NAMES, tags, scheme, model=False)
        expect_ok(drv.call("sf_load", h="n%d" % scheme, path=p + "n", res="r"))
    events, sources = [], []

    def observe(scheme, tags, h, mapping, model=True):
        text, toks = "", []
        for k, t in enumerate(tags):
            text += rng.choice(["", " ", "  ", "- "]) if k == 0 and rng.random() < 0.2 else ""
            w = rng.choice(words[scheme][tag_text(t)])
            if k and w[0] == "w" and rng.random() < 0.1:
                w = w.upper()
            toks.append({"s": len(text), "e": len(text) + len(w)})
            text += w
            if k + 1 < len(tags):
                text += rng.choice([" ", " ", " ", "  ", ", ", "-", "\u00a0"])
        text += rng.choice(["", "", "", " ", "."])
        r = drv.call("get_slots", h=h, text=text)
        events.append({"op": "slots", "scheme": scheme, "tags": tags, "tokens": toks, "text": codes(text), "mapping": mapping,
                       "model": model,
                       "res": {"r": r["r"], "names": [n for n in NAMES if r["r"] == "err" and n in " ".join(r["chain"]).split("name: ")[-1]],
                               "slots": [{"s": s["range"][0], "e": s["range"][1], "raw": codes(s["value"]), "entity": s["entity"],
                                          "name": s["slotName"]} for s in r["v"]] if r["r"] == "ok" else []}})
        sources.append({"text": text, "scheme": scheme, "tags": [tag_text(t) for t in tags], "reply": r})

    for sc in seqs:
        observe(sc["scheme"], sc["tags"], "f%d" % sc["scheme"], NAMES)
    for n in range(ctx.pick(4, 30)):            # very long ones
        scheme = rng.randint(0, 2)
        pool = [{"m": t[0], "n": t[2:]} for t in words[scheme] if t != "O"]
        tags = [rng.choice(pool) if rng.random() < 0.3 else {"m": "O", "n": ""} for _ in range(rng.choice([300, 600, 1100]))]
        observe(scheme, tags, "f%d" % scheme, NAMES)
    for n in range(ctx.pick(1500, 20000)):      # longer sequences than the design explores
        scheme = rng.randint(0, 2)
        pool = [{"m": t[0], "n": t[2:]} for t in words[scheme] if t != "O"]
        tags = [rng.choice(pool) if rng.random() < 0.7 else {"m": "O", "n": ""} for _ in range(rng.randint(0, 14) if rng.random() < 0.95 else rng.randint(15, 70))]
        roll = rng.random()
        if roll < 0.1:
            observe(scheme, tags, "g%d" % scheme, {"a": "city"})
        elif roll < 0.15:
            observe(scheme, tags, "n%d" % scheme, NAMES, False)
        else:
            observe(scheme, tags, "f%d" % scheme, NAMES)
    for ev in events[-60::10]:
        ctx.sample(json.dumps({"tags": [tag_text(t) for t in ev["tags"]], "res": ev["res"]["slots"]})[:300])
    ctx.judge("CrfTrace", events, sources)
    good = next(ev for ev in events if len(ev["res"]["slots"]) > 1 and ev["res"]["r"] == "ok")
    bad = json.loads(json.dumps(good))
    bad["res"]["slots"][0]["e"] += 1
    bad2 = json.loads(json.dumps(good))
    bad2["res"]["slots"].pop()
    ctx.demonstrate_binding("CrfTrace", events, [bad, bad2])


def expect_ok(r):
    if r["r"] != "ok":
        raise core.ToolError("unexpected reply %r" % r)


def check_prob(ctx):
    drv, rng = ctx.driver(), ctx.rng
    d = ctx.fresh_dir("res")
    drv.call("res_load", h="r", **M.resources(d, "en", custom={}))
    # the algebra of the definition: probabilities of all the paths sum to one
    ctx.model_check("CrfProbDesign", """SPECIFICATION Spec
CONSTANTS Labels = {"O", "B-a"} MaxLen = %d Weights = {1, 3}
INVARIANTS C29_SumsToOne C29_ReplacedKnown
CHECK_DEADLOCK FALSE
""" % ctx.pick(2, 3), timeout=3000)
    events, sources = [], []
    vocab = ["go", "one", "two", "the"]
    for n in range(ctx.pick(120, 1200)):
        labels = rng.sample(["O", "B-a", "I-a", "B-b", "U-slot \u00e9"], rng.randint(1, 4))
        if rng.random() < 0.75 and "O" not in labels:
            labels[rng.randrange(len(labels))] = "O"
        wt = {w: {l: rng.choice([1, 1, 2, 3]) for l in labels} for w in vocab}
        tr = {a: {b: rng.choice([1, 1, 2, 3]) for b in labels} for a in labels}
        long = n % 12 == 5                 # long sequences, where few weights differ so that numbers stay small
        if long:
            labels = labels[:rng.randint(1, 2)]
            wt = {w: {l: rng.choice([1, 3]) if w == "two" else 1 for l in labels} for w in vocab}
            tr = {a: {b: 1 for b in labels} for a in labels}
        p = os.path.join(ctx.dir, "f%d" % n)
        model = rng.random() > 0.1
        M.slot_filler(p, "en", "i", {"a": "city"}, {}, 1, model=model, labels=labels,
                      weights={"ngram_1:" + w: {M.b64(l): math.log(x) for l, x in m.items()} for w, m in wt.items()},
                      transitions={M.b64(a): {M.b64(b): math.log(x) for b, x in m.items()} for a, m in tr.items()})
        expect_ok(drv.call("sf_load", h="f", path=p, res="r"))
        for _ in range(8):
            ws = [rng.choice(vocab) for _ in range(rng.randint(0, 4))]
            if long:
                ws = ["go"] * rng.choice([9, 11, 40, 200] if len(labels) == 1 else [9, 10])
                ws[rng.randrange(len(ws))] = "two" if len(labels) > 1 else "go"
            pool = (labels + ["B-unseen", "I-b", "O", "", "L-a", "U-a", "B-", "L-slot \u00e9", "o"]) if rng.random() < 0.6 else labels
            tags = [rng.choice(pool) for _ in ws]
            if not model and rng.random() < 0.5:
                tags = ["O" for _ in ws]
            r = drv.call("sf_prob", h="f", text=" ".join(ws), lang="en", tags=tags)
            events.append({"op": "prob", "model": model, "labels": labels, "tags": tags, "state": [wt[w] for w in ws],
                           "trans": tr, "r": r["r"], "p": int(round(r["v"] * 1e7)) if r["r"] == "ok" else -1})
            sources.append({"labels": labels, "words": ws, "tags": tags, "weights": wt, "transitions": tr, "reply": r})
        shutil.rmtree(p)
    for ev in events[::200]:
        ctx.sample(json.dumps({k: ev[k] for k in ("labels", "tags", "p")}))
    ctx.judge("CrfTrace", events, sources)
    bad = json.loads(json.dumps(next(ev for ev in events if ev["model"] and len(ev["tags"]) > 1)))
    bad["p"] = bad["p"] + 50000 if bad["p"] < 5000000 else bad["p"] - 50000
    ctx.demonstrate_binding("CrfTrace", events, [bad])
