"""Checks of the C interface: C27."""
import json, os, shutil, struct, subprocess
from . import core, engine, gen, models as M
from .archive import write_zip
from .engine import canon
from .history import settle

SILENCE = "No error message"


def even(v):
    """Numbers of either width in one form."""
    if isinstance(v, float) or (isinstance(v, int) and not isinstance(v, bool)):
        try:
            return "%.7g" % struct.unpack("f", struct.pack("f", v))
        except OverflowError:
            return "%.7g" % v
    if isinstance(v, list):
        return [even(x) for x in v]
    if isinstance(v, dict):
        return {k: even(x) for k, x in v.items()}
    return v


def esc(s):
    return json.dumps(s)[1:-1]


def parts(op, v, ia=0):
    """An answer of the library, in parts. Of the intents that have the lowest score, which ones are cut off is not told."""
    v = settle(v)
    if op == "parse" and isinstance(v, dict) and 0 < ia == len(v.get("alternatives", [])):
        low = v["alternatives"][-1]["intent"]["confidenceScore"]
        v = dict(v, alternatives=[low if a["intent"]["confidenceScore"] == low else a for a in v["alternatives"]])
    if op == "parse":
        return {k: canon(even(v.get(k))) for k in ("input", "intent", "slots", "alternatives")} if isinstance(v, dict) else {"text": canon(v)}
    return {op: canon(even(v))}


LIB = {"parse": "parse", "parse_json": "parse", "slots": "get_slots", "slots_json": "get_slots", "intents": "get_intents",
       "intents_json": "get_intents"}
GOOD = {"text": "ok", "handle": "ok"}


def field(v):
    """One argument in the form that the client in C reads."""
    if v is None:
        return "-"
    if isinstance(v, dict):
        return "!%d" % v["null"] if "null" in v else "=" + bytes(v["bytes"]).hex()
    if isinstance(v, list):
        return "[" + ",".join(field(x) for x in v)
    return "=" + v.encode().hex()


def kinds(v):
    """An answer of the library with only the kinds of the values, which is what the header tells of them."""
    if isinstance(v, list):
        return [kinds(x) for x in v]
    if isinstance(v, dict):
        if "kind" in v:
            return v["kind"]
        return {k: kinds(x) for k, x in v.items()}
    return v


class Client:
    """A program in C, compiled with the header of the repository."""

    def __init__(self, ctx):
        self.exe = os.path.join(ctx.dir, "cclient")
        lib = os.path.join(core.TARGET, "debug")
        p = subprocess.run(["gcc", "-O1", "-I" + os.path.join(core.REPO, "platforms", "c"), os.path.join(core.VERIF, "harness", "cclient.c"),
                            "-o", self.exe, "-L" + lib, "-lverif_pyffi", "-Wl,-rpath," + lib], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise core.BuildError("cannot build the client in C:\n" + p.stdout[-3000:])
        self.p = None

    def send(self, req):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8", errors="replace",
                                      env=dict(os.environ, VERIF_FFI_QUIET="1"), stderr=subprocess.DEVNULL)
        get = lambda k: {"bytes": req[k + "_bytes"]} if k + "_bytes" in req else req.get(k)
        f = req["f"]
        first = "path" if f.startswith("create") else "text"
        num = lambda k: str(req[k]) if req.get(k) is not None else "-"
        line = "\t".join([f, "0" if req.get("h") is None else "1", field(get(first)), field(get("intent")), field(get("wl")), field(get("bl")), num("ia"), num("sa")])
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
            out = self.p.stdout.readline()
        except BrokenPipeError:
            out = ""
        try:
            v = json.loads(out)
            if f.endswith("_json") and v["out"] is not None:
                v["out"] = json.loads(v["out"])
        except ValueError:
            self.p.kill()
            self.p.wait()
            return {"r": "bad_json" if out else "died"}
        if not v["known"]:
            raise core.ToolError("the client in C does not know %r" % req)
        if not v["destroyed"]:
            return {"r": "not_destroyed"}
        return {"r": "ok", "v": {"code": v["code"], "out": v["out"] if v["given"] else None}}

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()


class Stories:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.drv, self.base = core.Driver(timeout=40), core.Driver(timeout=40)
        self.ghost = self.ties = 0
        self.long = 65536
        self.events, self.sources = [], []

    def world(self):
        self.dir = self.ctx.fresh_dir("eng")
        self.w = None
        while self.w is None or not self.w.kinds:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.w = engine.random_engine(self.rng, self.dir, self.base)
        entries = []
        for top, _, files in os.walk(self.dir):
            for f in files:
                p = os.path.join(top, f)
                entries.append(("engine/" + os.path.relpath(p, self.dir), open(p, "rb").read()))
        if self.rng.random() < 0.6:
            entries.append(("engine/padding", b"x" * self.rng.choice([70000, 140000])))
        self.zip = self.dir + ".zip"
        with open(self.zip, "wb") as f:
            f.write(write_zip(entries))
        r = self.base.call("engine_load", h="b", path=self.dir)
        if r["r"] != "ok":
            raise core.ToolError("%r" % r)

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        if os.path.exists(self.zip):
            os.unlink(self.zip)

    def name(self):
        self.ghost += 1
        return "ghost%dx" % self.ghost

    # ---- one call: the request, what its arguments are, and the request to the library
    def create(self, h, good):
        rng = self.rng
        zipped = rng.random() < 0.5
        req = {"op": "ffi", "f": "create_zip" if zipped else "create_dir", "h": h, "path": self.zip if zipped else self.dir}
        args, lib, name = {"path": "ok"}, {"op": "engine_zip" if zipped else "engine_load", "h": "tmp", "path": req["path"]}, None
        if not good:
            how = rng.choice(["null", "missing", "damaged", "utf8"])
            if how == "null":
                req["path"] = None
                args, lib = {"path": "null"}, None
            elif how == "utf8" and not zipped:
                req.pop("path")
                req["path_bytes"] = [47, 255, 254]
                args, lib = {"path": "utf8"}, None
            else:
                name = self.name()
                p = os.path.join(self.ctx.dir, name)
                if zipped:
                    open(p, "wb").write(open(self.zip, "rb").read()[:-60] if how == "damaged" else b"not an archive")
                elif how == "damaged":
                    os.makedirs(p)
                    open(os.path.join(p, "nlu_engine.json"), "w").write("{}")
                req["path"] = lib["path"] = p
                name = None if zipped else name
        return req, args, lib, name, "create"

    def call(self, h, good):
        rng, w = self.rng, self.w
        f = rng.choice(list(LIB))
        text = w.text()
        for _ in range(20):                 # equal intents are in no order
            r = self.base.call("get_intents", h="b", text=text)
            scores = [i["confidenceScore"] for i in r["v"] if i["confidenceScore"] > 0] if r["r"] == "ok" else []
            if len(set(scores)) == len(scores):
                break
            self.ties += 1
            text = w.text()
        req, args = {"op": "ffi", "f": f, "h": h, "text": text}, dict(GOOD)
        lib, name = {"op": LIB[f], "h": "b", "text": text}, None
        if "parse" in f:
            wl, bl = engine.random_filter(rng, w.intents, 0), engine.random_filter(rng, w.intents, 0)
            if rng.random() < 0.12 and len(w.intents) > 1:      # longer than a byte, or two, can tell
                long = [w.intents[0]] * rng.choice([255, 256, 256, 256, self.long]) + [rng.choice(w.intents)]
                wl, bl = rng.choice([(long, bl), (wl, long), (long, None)])
            lib.update(wl=wl, bl=bl, ia=0, sa=0)
            req.update(wl=wl, bl=bl)
            if wl == [] and rng.random() < 0.5:
                req["wl"] = {"null": 0}
            args.update(wl="none" if wl is None else "ok", bl="none" if bl is None else "ok")
            if rng.random() < 0.7:
                req.update(ia=rng.choice([0, 1, 2, 256, 4294967295]), sa=rng.choice([0, 1, 2, 7, 256, 4294967295]))
                lib.update(ia=req["ia"], sa=req["sa"])
        if "slots" in f:
            i = rng.choice(w.intents)
            args["intent"] = "ok"
            req["intent"] = lib["intent"] = i
            lib["sa"] = 0
            if rng.random() < 0.6:
                req["sa"] = lib["sa"] = rng.choice([0, 1, 2, 7, 256, 4294967295])
        if not good:
            hows = ["text-null", "text-utf8", "handle", "parsererror"]
            if "parse" in f:
                hows += ["wl-ghost", "bl-ghost", "wl-utf8", "bl-utf8", "wl-element", "bl-element", "wl-data", "bl-data"] * 2
            if "slots" in f:
                hows += ["ghost", "intent-null", "intent-utf8"] * 2
            how = rng.choice(hows)
            a, _, b = how.partition("-")
            if how == "parsererror":
                lib["text"] = req["text"] = "parsererror " + text
            elif how == "handle":
                req["h"] = None
                args["handle"] = "null"
            elif how == "ghost":
                name = req["intent"] = lib["intent"] = self.name()
                if rng.random() < 0.4:      # nearly a name that is known
                    i, name = rng.choice(w.intents), None
                    req["intent"] = lib["intent"] = rng.choice([i + " ", " " + i, i[:1].swapcase() + i[1:], i + "\n", "", i[:-1]])
            elif b == "ghost":
                name = self.name()
                if rng.random() < 0.3:
                    i, name = rng.choice(w.intents), None
                    req[a] = lib[a] = [rng.choice([i + " ", " " + i, i[:1].swapcase() + i[1:], "", i[:-1]])]
                else:
                    req[a] = lib[a] = [name]
                args[a] = "ok"
            elif a in ("wl", "bl"):
                args[a] = "element" if b == "data" else b
                bad = {"utf8": {"bytes": [99, 255]}, "element": None}.get(b)
                req[a] = {"null": rng.choice([1, 3])} if b == "data" else rng.choice([[bad], w.intents[:1] + [bad], [bad] + w.intents[:1]])
            else:
                args[a] = b
                req.pop(a)
                if b == "utf8":
                    req[a + "_bytes"] = [104, 195, 40]
                else:
                    req[a] = None
        return req, args, lib, name, LIB[f]

    def lib(self, req):
        if req is None:
            return {"r": "none", "chain": [], "parts": {}}, None
        r = self.base.send(req)
        if r["r"] == "ok" and req["op"].startswith("engine"):
            self.base.call("drop", h="tmp")
        if r["r"] not in ("ok", "err"):
            raise core.ToolError("the library itself: %r -> %r" % (req, r))
        op = req["op"]
        return {"r": r["r"], "chain": [esc(c) for c in r.get("chain", [])],
                "parts": parts(op, r["v"], req.get("ia", 0)) if r["r"] == "ok" and not op.startswith("engine") else {}}, r

    def step(self, t, made, reply):
        req, args, lib, name, op = made
        st = {"act": "call", "t": t, "args": args, "code": -1, "given": False, "died": reply["r"], "out": {}}
        st["lib"], raw = self.lib(lib)
        if reply["r"] == "ok":
            v = reply["v"]
            st.update(code=v["code"], given=v["out"] is not None)
            if v["code"] == 0 and v["out"] is not None and op != "create":
                st["out"] = parts(op, v["out"], req.get("ia", 0))
        names = [{"t": t, "name": name}] if name and any(name in c for c in st["lib"]["chain"]) else []
        return st, names, {"thread": t, "request": req, "reply": reply, "library": raw}

    def add(self, steps, names, source, threads):
        self.events.append({"op": "story", "threads": threads, "steps": steps, "names": names, "silence": SILENCE})
        self.sources.append(source)

    def send(self, t, req):
        return self.drv.send({"op": "on", "t": t, "req": req})

    # ---- stories of the design, step by step on threads of their own
    def story(self, behaviour, threads):
        steps, names, source, live = [], [], [], set()
        if self.drv.dead:
            self.drv = core.Driver(timeout=40)
        self.send(1, {"op": "ffi", "f": "balance"})
        for t in range(1, threads + 1):
            self.send(t, {"op": "ffi", "f": "last_error"})
        for b in behaviour:
            t, h = b["t"], "f%d" % b["e"]
            if b["act"] == "release":
                continue
            if b["act"] == "ask":
                r = self.send(t, {"op": "ffi", "f": "last_error"})
                steps.append({"act": "ask", "t": t, "msg": esc(r["v"]) if r["r"] == "ok" else "~" + r["r"]})
                source.append({"thread": t, "asked": r})
                continue
            if b["act"] == "destroy":
                live.discard(h)
                made = ({"op": "ffi", "f": "destroy", "h": h}, {"handle": "ok"}, None, None, "destroy")
            elif b["act"].startswith("create"):
                made = self.create(h, b["act"] == "create")
            else:
                made = self.call(h, b["act"] == "call")
            r = self.send(t, dict(made[0], keep_error=True))
            if b["act"] == "destroy":
                steps.append({"act": "call", "t": t, "args": made[1], "code": r["v"]["code"] if r["r"] == "ok" else -1, "given": False,
                              "died": r["r"], "out": {}, "lib": {"r": "ok", "chain": [], "parts": {}}})
                source.append({"thread": t, "request": made[0], "reply": r})
            else:
                st, ns, src = self.step(t, made, r)
                steps.append(st)
                names += ns
                source.append(src)
                if b["act"] == "create" and r["r"] == "ok" and r["v"]["code"] == 0:
                    live.add(h)
            if r["r"] != "ok" or (b["act"] == "create" and h not in live):
                break
        if not self.drv.dead:
            r = self.send(1, {"op": "ffi", "f": "balance"})
            steps.append({"act": "balance", "t": 1, "live": len(r["v"]["live"]), "odd": r["v"]["odd"], "blind": r["v"]["blind"], "engines": len(live)})
            source.append({"balance": r})
            for h in live:
                self.send(1, {"op": "ffi", "f": "destroy", "h": h})
        self.add(steps, names, source, threads)

    # ---- the same, all the threads at once
    def crowd(self, nt):
        rng = self.rng
        if self.drv.dead:
            self.drv = core.Driver(timeout=40)
        r = self.send(1, {"op": "ffi", "f": "create_dir", "h": "shared", "path": self.dir})
        if r["r"] != "ok" or r["v"]["code"] != 0:
            return
        lists = [[self.call("shared", rng.random() < 0.6) if rng.random() < 0.7 else None for _ in range(rng.randint(3, 7))] for _ in range(nt)]
        r = self.drv.send({"op": "threads", "threads": [
            [{"op": "ffi", "f": "last_error"} if m is None else dict(m[0], keep_error=True) for m in l] for l in lists]})
        steps, names, source = [], [], []
        for t, l in enumerate(lists, 1):
            for k, m in enumerate(l):
                if r["r"] != "ok":
                    reply = r
                else:
                    reply = r["v"][t - 1][k] if k < len(r["v"][t - 1]) else {"r": "died"}
                if m is None:
                    steps.append({"act": "ask", "t": t, "msg": esc(reply["v"]) if reply["r"] == "ok" else "~" + reply["r"]})
                    source.append({"thread": t, "asked": reply})
                else:
                    st, ns, src = self.step(t, m, reply)
                    steps.append(st)
                    names += ns
                    source.append(src)
        self.add(steps, names, source, nt)
        if not self.drv.dead:
            self.send(1, {"op": "ffi", "f": "destroy", "h": "shared"})

    # ---- a client that is written in C against the header
    def in_c(self, client, n):
        rng, steps, names, source = self.rng, [], [], []
        self.long = 300                     # its lines are of at most 1 MB
        asked = lambda: client.send({"f": "last_error"})
        if client.p:
            asked()                         # what is left of the story before

        def do(made):
            r = client.send(made[0])
            st, ns, src = self.step(1, made, r)
            if made[0]["f"] in ("parse", "slots") and st["lib"]["r"] == "ok":
                st["lib"]["parts"] = parts(made[4], kinds(src["library"]["v"]), made[0].get("ia", 0))
            steps.append(st)
            names.extend(ns)
            source.append(src)
            if r["r"] == "ok" and r["v"]["code"] != 0 and rng.random() < 0.6:
                r = asked()
                steps.append({"act": "ask", "t": 1, "msg": esc(r["v"]["out"] or "") if r["r"] == "ok" else "~" + r["r"]})
                source.append({"asked": r})
            return r["r"] == "ok"
        first = self.create("c", True)
        todo = [self.create("c", False) for _ in range(rng.choice([0, 0, 1]))] + [first]
        todo += [self.call("c", rng.random() < 0.7) for _ in range(n)]
        todo.append(({"op": "ffi", "f": "destroy", "h": "c"}, {"handle": "ok"}, None, None, "destroy"))
        for made in todo:
            if made[4] == "destroy":
                r = client.send(made[0])
                steps.append({"act": "call", "t": 1, "args": made[1], "code": r["v"]["code"] if r["r"] == "ok" else -1, "given": False,
                              "died": r["r"], "out": {}, "lib": {"r": "ok", "chain": [], "parts": {}}})
                source.append({"request": made[0], "reply": r})
            elif not do(made) or (made is first and steps[-1].get("code") != 0):
                break
        self.long = 65536
        self.add(steps, names, {"client": "C", "story": source}, 1)

    # ---- the same calls again and again keep nothing
    def steady(self):
        if self.drv.dead:
            self.drv = core.Driver(timeout=40)
        r = self.send(1, {"op": "ffi", "f": "create_dir", "h": "s", "path": self.dir})
        if r["r"] != "ok" or r["v"]["code"] != 0:
            return
        whole = [self.create("n", True)[0], {"op": "ffi", "f": "destroy", "h": "n"}]
        r = self.send(1, whole[0])
        made = r["r"] == "ok" and r["v"]["code"] == 0
        if made:
            self.send(1, whole[1])
        for calls in [whole] * made + [[self.create("n", False)[0]]] + [[self.call("s", self.rng.random() < 0.7)[0] for _ in range(3)] for _ in range(8)]:
            r = self.send(1, {"op": "ffi", "f": "steady", "calls": calls, "n": 12})
            if r["r"] != "ok":
                st = {"act": "call", "t": 1, "args": {}, "code": -1, "given": False, "died": r["r"], "out": {}, "lib": {"r": "ok", "chain": [], "parts": {}}}
            else:
                st = {"act": "steady", "t": 1, "grown": r["v"]["grown"], "n": r["v"]["n"]}
            self.add([st], [], {"calls": calls, "reply": r}, 1)
        if not self.drv.dead:
            self.send(1, {"op": "ffi", "f": "destroy", "h": "s"})

    def version(self):
        v = self.base.call("version")["v"]
        r = self.send(1, {"op": "ffi", "f": "version"})
        ok = r["r"] == "ok"
        self.add([{"act": "call", "t": 1, "args": {}, "code": r["v"]["code"] if ok else -1, "given": True, "died": r["r"],
                   "out": {"version": canon(r["v"]["out"]) if ok else ""}, "lib": {"r": "ok", "chain": [], "parts": {"version": canon(v)}}}],
                 [], r, 1)


def check(ctx):
    core.build(("driver", "pyffi"))
    rng = ctx.rng
    cfg = """SPECIFICATION Spec
CONSTANTS Threads = {1, 2%s} Engines = {1%s} MaxSteps = %d
INVARIANTS C27_OwnMessage C27_OneOwner C27_LiveUse %s
CHECK_DEADLOCK FALSE
"""
    ctx.model_check("FfiDesign", cfg % ("", "", ctx.pick(5, 6), ""), timeout=3000)
    dump = os.path.join(ctx.dir, "behaviours.csv")
    n = ctx.pick(12, 16)
    ctx.simulate("FfiDesign", cfg % (", 3", ", 2", n, "Export"), env={"DUMP": dump}, num=ctx.pick(240, 5000), depth=n + 1)
    behaviours = [json.loads(json.loads(l)) for l in open(dump)]
    ctx.notes["behaviours_generated"] = len(behaviours)
    s = Stories(ctx)
    s.version()
    client = Client(ctx)
    v = client.send({"f": "version"})
    s.add([{"act": "call", "t": 1, "args": {}, "code": v["v"]["code"] if v["r"] == "ok" else -1, "given": True, "died": v["r"],
            "out": {"version": canon(v["v"]["out"]) if v["r"] == "ok" else ""},
            "lib": {"r": "ok", "chain": [], "parts": {"version": canon(s.base.call("version")["v"])}}}], [], v, 1)
    per = ctx.pick(25, 50)
    for k in range(0, len(behaviours), per):
        s.world()
        for b in behaviours[k:k + per]:
            s.story(b, 3)
        for _ in range(ctx.pick(5, 12)):
            s.crowd(rng.choice([2, 3, 4]))
        s.steady()
        for _ in range(ctx.pick(3, 12)):
            s.in_c(client, 12)
        s.done()
    client.close()
    s.drv.close()
    s.base.close()
    ctx.notes["ties"] = s.ties
    ctx.notes["calls"] = sum(st["act"] == "call" for ev in s.events for st in ev["steps"])
    for src in s.sources[-3:]:
        ctx.sample(json.dumps(src)[:300])
    ctx.judge("FfiTrace", s.events, s.sources)
    copy = lambda ev: json.loads(json.dumps(ev))
    bad = []
    ev = copy(next(ev for ev in s.events if any(st["act"] == "call" and "input" in st["out"] for st in ev["steps"])))
    next(st for st in ev["steps"] if st["act"] == "call" and "input" in st["out"])["out"]["slots"] = "[0]"
    bad.append(ev)
    for ev in s.events:
        k = next((k for k in range(len(ev["steps"]) - 1) if ev["steps"][k]["act"] == "call" and ev["steps"][k]["code"] == 1
                  and ev["steps"][k]["lib"]["chain"] and ev["steps"][k + 1]["act"] == "ask" and ev["steps"][k + 1]["t"] == ev["steps"][k]["t"]), None)
        if k is not None:
            ev = copy(ev)
            ev["steps"][k + 1]["msg"] = "other"
            bad.append(ev)
            break
    ev = copy(next(ev for ev in s.events if ev["steps"][-1]["act"] == "balance"))
    ev["steps"][-1]["live"] += 1
    bad.append(ev)
    ctx.demonstrate_binding("FfiTrace", s.events, bad)
