"""Checks of the Python class: C28."""
import json, os, shutil, sys
from . import core, engine
from .core import REPO, TARGET, VERIF
from .ffi import Stories, esc, parts

CFG = """SPECIFICATION Spec
CONSTANTS Threads = {1, 2%s} Engines = {1%s} MaxOps = %d Careful = %s
INVARIANTS C28_NothingKept C28_BackOnce C28_UseLive C28_AllBack %s
CHECK_DEADLOCK FALSE
"""


class PyStories(Stories):
    def __init__(self, ctx):
        Stories.__init__(self, ctx)
        self.drv.close()
        top = ctx.fresh_dir("py")
        shutil.copytree(os.path.join(REPO, "platforms", "python", "snips_nlu_rust"), os.path.join(top, "snips_nlu_rust"),
                        ignore=shutil.ignore_patterns("tests", "dylib", "__pycache__"))
        os.makedirs(os.path.join(top, "snips_nlu_rust", "dylib"))
        shutil.copy(os.path.join(TARGET, "debug", "libverif_pyffi.so"),
                    os.path.join(top, "snips_nlu_rust", "dylib", "libsnips_nlu_python_ffi.so"))
        self.top, self.log = top, os.path.join(ctx.dir, "handed.log")
        self.start()

    def start(self, logged=True):
        env = {"PYTHONDONTWRITEBYTECODE": "1"}
        env.update({"VERIF_FFI_LOG": self.log} if logged else {"VERIF_FFI_NOLOG": "1"})
        w = core.Driver(env=env, timeout=60, cmd=[sys.executable, os.path.join(VERIF, "vf", "pyworker.py"), self.top])
        if logged:
            self.drv = w
        return w

    # ---- one operation: the request, what its arguments are, and the request to the library
    def py_create(self, h, good):
        rng = self.rng
        how = rng.choice(["missing", "damaged", "nothing", "nul"]) if not good else "good"
        zipped = rng.random() < 0.5
        if how == "nothing":
            return {"op": "create", "h": h}, {"source": "other"}, None, "create"
        p = self.zip if zipped else self.dir
        if how == "nul":
            p, zipped = self.dir + "\0x", False
        elif how != "good":
            p = os.path.join(self.ctx.dir, self.name())
            if zipped:
                open(p, "wb").write(open(self.zip, "rb").read()[:-60] if how == "damaged" else rng.choice([b"", b"not an archive"]))
            elif how == "damaged":
                os.makedirs(p)
                open(os.path.join(p, "nlu_engine.json"), "w").write("{}")
        lib = {"op": "engine_zip" if zipped else "engine_load", "h": "tmp", "path": p}
        return {"op": "create", "h": h, "zip" if zipped else "dir": p}, {"source": "nul" if how == "nul" else "text"}, lib, "create"

    def py_call(self, h, kind):
        """kind: "call", "call-bad" (the library fails) or "refused" (an argument that is not a text)"""
        rng, w = self.rng, self.w
        f = rng.choice(["parse", "parse", "get_slots", "get_intents"]) if kind != "refused" else rng.choice(["parse", "parse", "parse", "get_slots"])
        text = self.plain_text()
        args, kw, pos = {"text": "text"}, {}, [text]
        lib = {"op": f, "h": "b", "text": text}
        if f == "parse":
            lib.update(wl=None, bl=None, ia=0, sa=5)
            for key, name in (("wl", "intents_whitelist"), ("bl", "intents_blacklist")):
                lib[key] = engine.random_filter(rng, w.intents, 0)
                if lib[key] and rng.random() < 0.3:             # said more than once
                    lib[key] = lib[key][:1] * rng.randint(1, 3) + lib[key]
                args[key] = "none" if lib[key] is None else "text"
                if lib[key] is not None or rng.random() < 0.2:
                    kw[name] = lib[key]
            for key, name in (("ia", "intents_alternatives"), ("sa", "slots_alternatives")):
                if rng.random() < 0.6:
                    kw[name] = lib[key] = rng.choice([0, 1, 2, 7, 99])
        elif f == "get_slots":
            lib.update(intent=rng.choice(w.intents), sa=5)
            if rng.random() < 0.6:
                kw["slots_alternatives"] = lib["sa"] = rng.choice([0, 1, 2, 7])
            args["intent"] = "text"
        if kind == "call-bad":
            hows = ["parsererror"] + {"parse": ["wl", "bl"] * 2, "get_slots": ["intent"] * 3, "get_intents": []}[f]
            how = rng.choice(hows)
            if how == "parsererror":
                pos = [rng.choice(["parsererror ", "é parsererror "]) + text]
                lib["text"] = pos[0]
            elif how == "intent":
                lib["intent"] = self.name()
            else:
                lib[how] = rng.choice([[self.name()], w.intents[:1] + [self.name()], [self.name() + " é"]])
                args[how] = "text"
                kw["intents_whitelist" if how == "wl" else "intents_blacklist"] = lib[how]
        elif kind == "refused":
            if f == "parse" and rng.random() < 0.6:
                key = rng.choice(["wl", "bl"])
                bad = rng.choice([{"type": "bytes", "v": "a"}, {"type": "bytes", "v": rng.choice(w.intents)}, {"type": "int", "v": 3}, {"type": "none", "v": 0}])
                l = rng.choice([[bad], w.intents[:1] + [bad], [bad] + w.intents[:1]])
                kw["intents_whitelist" if key == "wl" else "intents_blacklist"] = l
                args[key] = "other"
            else:
                nul = rng.choice([text + "\0", "\0" + text, text + "\0 more"])
                where = rng.choice(["text"] + {"parse": ["wl"], "get_slots": ["intent"]}[f])
                args[where] = "nul"
                if where == "text":
                    pos = [nul]
                    lib["text"] = nul
                elif where == "intent":
                    lib["intent"] = rng.choice(w.intents) + "\0x"
                else:
                    lib["wl"] = [rng.choice(w.intents) + "\0x"]
                    kw["intents_whitelist"] = lib["wl"]
        if f == "get_slots":
            pos = pos + [lib["intent"]]
        if rng.random() < 0.3:
            for key in ("intents_whitelist", "intents_blacklist"):
                if isinstance(kw.get(key), list):
                    kw[key] = {"type": "tuple", "v": kw[key]}
        return {"op": "call", "h": h, "f": f, "args": pos, "kw": kw}, args, lib, f

    def plain_text(self):
        for _ in range(20):                 # equal intents are in no order
            text = self.w.text().replace("\0", "")
            r = self.base.call("get_intents", h="b", text=text)
            scores = [i["confidenceScore"] for i in r["v"] if i["confidenceScore"] > 0] if r["r"] == "ok" else []
            if len(set(scores)) == len(scores):
                break
        return text

    def py_step(self, made, reply):
        req, args, lib, op = made
        st = {"act": "op", "args": args, "out": {"how": "died", "parts": {}, "msg": ""}}
        st["lib"], raw = self.lib(lib)
        if reply["r"] == "ok":
            st["out"]["how"] = "value"
            if op != "create":
                st["out"]["parts"] = parts(op, reply["v"], lib.get("ia", 0)) if reply["plain"] else {}
        elif reply["r"] == "raised":
            st["out"].update(how="raised", msg=esc(reply["msg"]))
        l = reply.get("log", [])
        st["handed"] = sum(x[0] == "+" and x[2] == "string" for x in l)
        return st, {"request": req, "reply": reply, "library": raw}

    def py_balance(self, steps, source):
        live, odd, blind = [], 0, False
        if os.path.exists(self.log):
            for x in open(self.log).read().splitlines():
                sign, address, _ = x.split(" ", 2)
                if sign == "+":
                    live.append(address)
                elif address in live:
                    live.remove(address)
                else:
                    odd += 1
        blind = any(st["act"] == "op" and st["out"]["how"] == "value" and "parts" in st["out"] and st["out"]["parts"] and not st["handed"] for st in steps)
        steps.append({"act": "balance", "live": len(live), "odd": odd, "blind": blind or self.crowded})
        source.append({"balance": [live, odd]})

    def py_story(self, behaviour):
        steps, source, live = [], [], set()
        self.crowded = False
        if self.drv.dead:
            self.start()
        open(self.log, "w").close()
        for b in behaviour:
            h, t = "f%d" % b["e"], b["t"]
            if b["act"] == "drop":
                live.discard(h)
                self.drv.send({"op": "drop", "h": h, "t": t})
                continue
            made = self.py_create(h, b["act"] == "create") if b["act"].startswith("create") else self.py_call(h, b["act"])
            r = self.drv.send(dict(made[0], t=t))
            st, src = self.py_step(made, r)
            steps.append(st)
            source.append(dict(src, thread=t))
            if b["act"] == "create":
                if r["r"] != "ok":
                    break
                live.add(h)
        for h in sorted(live):
            self.drv.send({"op": "drop", "h": h, "t": 1})
        if not self.drv.dead:
            self.py_balance(steps, source)
        self.events.append({"op": "story", "steps": steps})
        self.sources.append(source)

    def py_crowd(self, nt):
        if self.drv.dead:
            self.start()
        steps, source = [], []
        if self.drv.send({"op": "create", "h": "c", "dir": self.dir})["r"] != "ok":
            return
        lists = [[self.py_call("c", self.rng.choice(["call", "call", "call-bad"])) for _ in range(self.rng.randint(2, 6))] for _ in range(nt)]
        r = self.drv.send({"op": "crowd", "lists": [[m[0] for m in l] for l in lists] + [[{"op": "drop", "h": "c"}]]})
        for t, l in enumerate(lists):
            for k, m in enumerate(l):
                st, src = self.py_step(m, r["v"][t][k] if r["r"] == "ok" else r)
                steps.append(st)
                source.append(src)
        self.events.append({"op": "story", "steps": steps})
        self.sources.append(source)

    def py_steady(self):
        w = self.start(logged=False)
        steps, source = [], []
        if w.send({"op": "create", "h": "s", "dir": self.dir})["r"] == "ok":
            whole = [self.py_create("n", True)[0], {"op": "drop", "h": "n"}]
            for calls in [whole, [self.py_create("n", False)[0]]] + [[self.py_call("s", k)[0] for _ in range(2)] for k in ("call", "call", "call-bad", "refused")]:
                r = w.send({"op": "steady", "calls": calls, "n": 10})
                if r["r"] == "ok":
                    steps.append({"act": "steady", "grown": r["grown"], "n": r["n"]})
                else:
                    steps.append({"act": "op", "args": {}, "lib": {"r": "ok", "chain": [], "parts": {}}, "handed": 0,
                                  "out": {"how": "died", "parts": {}, "msg": ""}})
                source.append({"calls": calls, "reply": r})
        w.close()
        self.events.append({"op": "story", "steps": steps})
        self.sources.append(source)


def check(ctx):
    core.build(("driver", "pyffi"))
    rng = ctx.rng
    ctx.model_check("PyDesign", CFG % ("", ", 2", ctx.pick(4, 6), "TRUE", ""), timeout=3000)
    ctx.refute("PyDesign", CFG % ("", "", 4, "FALSE", ""), "C28_UseLive", "a careless destruction")
    dump = os.path.join(ctx.dir, "behaviours.csv")
    n = ctx.pick(12, 16)
    ctx.simulate("PyDesign", CFG % (", 3", ", 2", n, "TRUE", "Export"), env={"DUMP": dump}, num=ctx.pick(150, 3000), depth=8 * n)
    behaviours = [json.loads(json.loads(l)) for l in open(dump)] if os.path.exists(dump) else []
    if not behaviours:
        raise core.ToolError("no behaviour")
    ctx.notes["behaviours_generated"] = len(behaviours)
    s = PyStories(ctx)
    per = ctx.pick(20, 50)
    for k in range(0, len(behaviours), per):
        s.world()
        for b in behaviours[k:k + per]:
            s.py_story(b)
        for _ in range(ctx.pick(3, 10)):
            s.py_crowd(rng.choice([2, 3, 4]))
        s.py_steady()
        s.done()
    s.drv.close()
    s.base.close()
    ctx.notes["operations"] = sum(st["act"] == "op" for ev in s.events for st in ev["steps"])
    for src in s.sources[-3:]:
        ctx.sample(json.dumps(src)[:300])
    ctx.judge("PyTrace", s.events, s.sources)
    copy = lambda ev: json.loads(json.dumps(ev))
    bad = []
    for change in ("value", "message", "balance", "steady", "refused"):
        for ev in s.events:
            ev = copy(ev)
            hit = False
            for st in ev["steps"]:
                o = st.get("out", {})
                if change == "value" and o.get("parts", {}).get("slots"):
                    o["parts"]["slots"] = "[0]"
                elif change == "message" and o.get("how") == "raised" and st["lib"]["chain"] and "nul" not in st["args"].values():
                    o["msg"] = "other"
                elif change == "balance" and st["act"] == "balance" and not st["blind"]:
                    st["live"] += 1
                elif change == "steady" and st["act"] == "steady":
                    st["grown"] = [200] * 4
                elif change == "refused" and "other" in st.get("args", {}).values():
                    o["how"] = "value"
                else:
                    continue
                hit = True
                break
            if hit:
                bad.append(ev)
                break
        else:
            raise core.ToolError("nothing of kind %s in the trace" % change)
    ctx.demonstrate_binding("PyTrace", s.events, bad)
