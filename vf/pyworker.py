"""Runs the Python engine: one request per line of input, one reply per line of output. Not run by the checks' own process."""
import json, os, sys
from concurrent.futures import ThreadPoolExecutor
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
sys.path.insert(0, sys.argv[1])
from snips_nlu_rust import NLUEngine            # noqa: E402
from snips_nlu_rust.utils import lib            # noqa: E402
from ctypes import c_int64                      # noqa: E402
LOG = os.environ.get("VERIF_FFI_LOG")
engines, threads = {}, {}
if hasattr(lib, "verif_live_bytes"):
    lib.verif_live_bytes.restype = c_int64


def value(x):
    """An argument: what JSON has no form for is {"type": ..., "v": ...}"""
    if isinstance(x, dict):
        v = x["v"]
        return {"bytes": lambda: v.encode(), "int": lambda: v, "tuple": lambda: tuple(map(value, v)), "none": lambda: None}[x["type"]]()
    return [value(y) for y in x] if isinstance(x, list) else x


def plain(x):
    if isinstance(x, dict):
        return type(x) is dict and all(type(k) is str and plain(v) for k, v in x.items())
    if isinstance(x, list):
        return type(x) is list and all(map(plain, x))
    return x is None or type(x) in (str, int, float, bool)


def operate(q, e=None):
    try:
        if q["op"] == "create":
            kw = {}
            if q.get("dir") is not None:
                kw["engine_dir"] = q["dir"]
            if q.get("zip") is not None:
                kw["engine_bytes"] = bytearray(open(q["zip"], "rb").read())
            engines[q["h"]] = NLUEngine(**kw)
            v = True
        elif q["op"] == "drop":
            engines.pop(q["h"], None)
            v = True
        else:
            v = getattr(e or engines[q["h"]], q["f"])(*[value(a) for a in q.get("args", [])], **{k: value(a) for k, a in q.get("kw", {}).items()})
        return {"r": "ok", "v": v, "plain": True} if plain(v) else {"r": "ok", "v": repr(v), "plain": False}
    except Exception as e:
        return {"r": "raised", "type": type(e).__name__, "msg": str(e)}


def run(q):
    at = os.path.getsize(LOG) if LOG and os.path.exists(LOG) else 0
    r = operate(q)
    if LOG and os.path.exists(LOG):
        with open(LOG) as f:
            f.seek(at)
            r["log"] = [l.split(" ", 2) for l in f.read().splitlines()]
    return r


for line in sys.stdin:
    q = json.loads(line)
    if q["op"] == "crowd":                      # lists of operations, all at once
        def together(work):                     # a list has its own reference to the engine
            e, l = work
            return [operate(x, None if x["op"] == "drop" else e) for x in l]
        works = [[engines.get(l[0]["h"]), l] for l in q["lists"]]
        for w in works:
            if w[1][0]["op"] == "drop":
                w[0] = None
        pool = ThreadPoolExecutor(len(works))
        futures = [pool.submit(together, w) for w in works]
        works.clear()
        r = {"r": "ok", "v": [f.result() for f in futures]}
        del futures
        pool.shutdown()
    elif q["op"] == "steady":
        def rounds(n):
            for _ in range(n):
                for x in q["calls"]:
                    operate(x)
        rounds(4)
        r = {"r": "ok", "grown": [], "n": q["n"]}
        for _ in range(4):
            before = lib.verif_live_bytes()
            rounds(q["n"])
            r["grown"].append(lib.verif_live_bytes() - before)
    else:
        t = q.get("t", 0)
        r = threads.setdefault(t, ThreadPoolExecutor(1)).submit(run, q).result()
    out.write(json.dumps(r) + "\n")
    out.flush()
os._exit(0)
