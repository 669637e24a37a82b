"""Checks of the resources of a language: C26."""
import json, os, shutil
from . import core, models as M

WORDS = ["go", "plays", "caf\u00e9", "cafe", "the", "\u65e5\u672c", "a b", " ", "x", "Go", "'s", "\"q", "a\"b", "#no", "42", "e\u0301t\u00e9", "\u00df",
         "\U0001d7d7", "a,b", "a\tb", "\u00a0", "ab\r", "\ufeffgo", "\u200bx", "new york city hall",
         "one two three four five six seven eight nine ten eleven twelve"]
NAMES = ["%s%d", "%s%d", "%s %d", "%s\u00e9%d"]
CLUSTERS = ["0", "7", "42", "65535", "65536", "042", "+7", "-1", "", "1e3", "abc", "0111", " 5", "\u0663", "99999999999999999999", "00"]


def lines(rng, make, n):
    out, end = b"", rng.choice([b"\n", b"\n", b"\n", b"\r\n", b"\r"])
    for k in range(n):
        out += make()
        if k + 1 < n or rng.random() < 0.7:
            out += end if rng.random() < 0.9 else rng.choice([b"\n", b"\r\n", b"\n\n", b"\r", b"\n \n"])
    return out


def words(rng):
    pick = rng.sample(WORDS, rng.randint(1, 8))
    return lines(rng, lambda: rng.choice(pick + [""]).encode(), rng.randint(0, 10))


def stems(rng):
    def line():
        return ",".join(rng.choice(WORDS + [""]) for _ in range(rng.choice([1, 2, 2, 3, 4, 5]))).encode()
    return lines(rng, line, rng.randint(0, 8))


def clusters(rng):
    vals = rng.choice([CLUSTERS, ["0", "7", "42", "65535"]])
    width = rng.choice([2] * 12 + [1, 3])
    odd = rng.random() < 0.1

    def line():
        w = rng.choice(WORDS).replace("\t", "").replace("\r", "")
        if odd and rng.random() < 0.2:
            return (w + "\t1" * rng.randint(0, 3)).encode()
        return "\t".join(([w] + [rng.choice(vals) for _ in range(3)])[:width]).encode()
    return lines(rng, line, rng.randint(0, 8))


def decoded(b):
    """The codes of a file, -1 for a byte that is not text."""
    return [-1 if 0xdc80 <= ord(c) <= 0xdcff else ord(c) for c in b.decode("utf-8", "surrogateescape")]


def fields(b, seps):
    out = {""}
    for c in ["\n", "\r"] + seps:
        for w in b.decode("utf-8", "replace").split(c):
            out.add(w)
            out.update(w.replace("\t", ",").replace("\r", "\n").replace("\n", ",").split(","))
    return out


def observe(ctx, drv, rng, gaz, clu, stm, stp, missing=False, asked=()):
    """gaz, clu: {name: bytes}; stm, stp: bytes or None"""
    d = ctx.fresh_dir("res")
    paths = M.resources(d, rng.choice(["en", "fr", "ja"]), custom={}, builtin=[])
    r = paths["resources"]
    meta = json.load(open(os.path.join(r, "metadata.json")))
    jobs = []
    if gaz is not None:
        meta["gazetteers"] = list(gaz)
        jobs += [(os.path.join(r, "gazetteers", n + ".txt"), b) for n, b in gaz.items()]
    if clu is not None:
        meta["word_clusters"] = list(clu)
        jobs += [(os.path.join(r, "word_clusters", n + ".txt"), b) for n, b in clu.items()]
    if stm is not None:
        meta["stems"] = "stems"
        jobs.append((os.path.join(r, "stemming", "stems.txt"), stm))
    if stp is not None:
        meta["stop_words"] = "stop_words"
        jobs.append((os.path.join(r, "stop_words.txt"), stp))
    M.wjson(os.path.join(r, "metadata.json"), meta)
    gone = missing and jobs and rng.choice(jobs)
    for p, b in jobs:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not (gone and gone[0] == p):
            with open(p, "wb") as f:
                f.write(b)
    reply = drv.call("res_load", h="r", **paths)
    shutil.rmtree(d)
    ws = sorted({w for w in asked if "\ufffd" not in w})
    cs = lambda t: [ord(c) for c in t]
    ev = {"op": "res", "r": reply["r"], "missing": bool(gone),
          "gazetteers": [{"name": n, "f": decoded(b)} for n, b in (gaz or {}).items()],
          "clusters": [{"name": n, "f": decoded(b)} for n, b in (clu or {}).items()],
          "stems": [decoded(stm)] if stm is not None else [], "stops": [decoded(stp)] if stp is not None else [],
          "asked": [], "got": {}}
    if reply["r"] == "ok":
        norm = drv.call("normalize", words=ws)["v"]
        ev["asked"] = [{"w": cs(w), "norm": cs(n)} for w, n in zip(ws, norm)]
        v = drv.call("res_query", h="r", words=ws)["v"]
        ev["got"] = {"gazetteers": v["gazetteers"], "has_stemmer": v["has_stemmer"],
                     "stems": [[-2] if s is None else cs(s) for s in v["stems"]],
                     "clusterers": [{"name": c["name"], "clusters": [[-2] if x is None else cs(x) for x in c["clusters"]]}
                                    for c in v["clusterers"]],
                     "stop_words": [cs(w) for w in v["stop_words"]]}
        drv.call("drop", h="r")
    return ev, {"gazetteers": {n: repr(b) for n, b in (gaz or {}).items()}, "clusters": {n: repr(b) for n, b in (clu or {}).items()},
                "stems": repr(stm), "stop_words": repr(stp), "asked": ws, "reply": reply if reply["r"] != "ok" else v}


def check(ctx):
    core.build()
    drv, rng = ctx.driver(), ctx.rng
    dump = os.path.join(ctx.dir, "behaviours.csv")
    ctx.model_check("ResourcesDesign", """SPECIFICATION Spec
CONSTANTS Chars = {%s} MaxFile = %d
INVARIANTS C26_Words C26_Stems C26_Clusters C26_NoBlank Export
CHECK_DEADLOCK FALSE
""" % (ctx.pick("97, 44, 10, 13", "97, 98, 44, 10, 13"), ctx.pick(5, 6)), env={"DUMP": dump}, timeout=3000)
    files = sorted(bytes(json.loads(json.loads(l))["file"]) for l in open(dump))
    ctx.notes["behaviours_generated"] = len(files)
    events, sources = [], []

    def add(pair):
        events.append(pair[0])
        sources.append(pair[1])

    # every file of the design, as stems and as stop words; as gazetteers and as clusters, several at a time when they are sound
    asked = ["", "a", "b", ",", "aa", "ab", "a,", ",a", "a\r", "\r", "\ra", "a,a"]
    for b in files:
        rows = [l for l in b.replace(b"\r", b"\n").split(b"\n") if l]
        sound = all(l.count(b",") >= 1 and l.count(b",") == rows[0].count(b",") for l in rows)
        if ctx.thorough() and len(b) == 6 and rng.random() < 0.6:
            continue
        tab = b.replace(b",", b"\t")
        add(observe(ctx, drv, rng, {"g": b}, {"c": tab} if sound or rng.random() < 0.3 else None, b, b, asked=asked))
    for n in range(ctx.pick(600, 6000)):
        gaz = {rng.choice(NAMES) % (rng.choice("gG"), k % 2): words(rng) for k in range(rng.randint(0, 3))} if rng.random() < 0.8 else None
        clu = {rng.choice(NAMES) % (rng.choice("cC"), k % 2): clusters(rng) for k in range(rng.randint(0, 3))} if rng.random() < 0.8 else None
        stm = stems(rng) if rng.random() < 0.7 else None
        stp = words(rng) if rng.random() < 0.7 else None
        if rng.random() < 0.06:
            broken = rng.choice([b"\xff", b"a\xc3\n", b"\xed\xa0\x80"])
            which = rng.randint(0, 3)
            if which == 0:
                gaz = {"g0": (gaz or {}).get("g0", b"") + broken}
            elif which == 1:
                clu = {"c0": b"a\t1\nb\t" + broken}
            elif which == 2:
                stm = (stm or b"") + broken
            else:
                stp = (stp or b"") + broken
        asked = set(rng.sample(WORDS, 8)) | {"zzz", ""}
        for b, seps in [(x, []) for x in (gaz or {}).values()] + [(x, ["\t"]) for x in (clu or {}).values()] + [(stm or b"", [","]), (stp or b"", [])]:
            asked |= fields(b, seps)
        asked |= {w.upper() for w in list(asked)[:4] if len(w.upper()) == len(w)} | {w + "s" for w in list(asked)[:3]}
        add(observe(ctx, drv, rng, gaz, clu, stm, stp, missing=rng.random() < 0.04, asked=asked))
    for n in range(ctx.pick(2, 12)):          # long files
        many = ["w%d" % k for k in range(rng.choice([300, 700, 1500]))]
        ends = many[:3] + many[250:260] + many[-6:]
        b = lambda f: "\n".join(f(w) for w in many).encode()
        add(observe(ctx, drv, rng, {"g0": b(lambda w: w)}, {"c0": b(lambda w: w + "\t" + w[1:])}, b(lambda w: "st%s,%s" % (w, w)),
                    b(lambda w: w), asked=ends))
    ctx.notes["refused"] = sum(ev["r"] == "err" for ev in events)
    for ev in events[-50::10]:
        ctx.sample(json.dumps(ev)[:300])
    ctx.judge("ResourcesTrace", events, sources)
    good = [ev for ev in events if ev["r"] == "ok" and ev["got"]["has_stemmer"] and ev["got"]["clusterers"] and ev["got"]["gazetteers"]
            and ev["asked"]]
    bad = [json.loads(json.dumps(ev)) for ev in good[-4:]]
    bad[0]["got"]["gazetteers"][0]["contains"][0] ^= True
    bad[1]["got"]["stems"][0].append(97)
    bad[2]["got"]["clusterers"][0]["clusters"][0] = [55]
    bad[3]["got"]["stop_words"].append([99, 99])
    ctx.demonstrate_binding("ResourcesTrace", events, bad)
