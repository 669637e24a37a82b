"""C20: engines loaded from archives."""
import json, os, shutil, struct, subprocess, tempfile, zlib
from . import core, engine, load
from .history import outcome, random_request

CFG = """SPECIFICATION Spec
CONSTANTS Alphabet = {%s} NameLength = %d MaxEntries = %d
INVARIANTS Contained IsTree OnePerPath EngineIsThere GoneAtTheEnd SameAsFold Export
CHECK_DEADLOCK FALSE
"""


def write_zip(entries, deflate=False, mode=None):
    """entries: [(name, bytes)]; a plain writer, which takes any name."""
    out, central = b"", b""
    for n, (name, data) in enumerate(entries):
        raw = name.encode()
        method = 8 if (deflate if isinstance(deflate, bool) else deflate[n]) else 0
        body = data
        if method:
            c = zlib.compressobj(6, zlib.DEFLATED, -15)
            body = c.compress(data) + c.flush()
        head = struct.pack("<HHHHHIIIHH", 20, 0x800, method, 0, 0x21, zlib.crc32(data), len(body), len(data), len(raw), 0)
        central += b"PK\x01\x02" + struct.pack("<H", 0x314) + head + struct.pack("<HHHII", 0, 0, 0, (mode or 0o100644) << 16, len(out)) + raw
        out += b"PK\x03\x04" + head + raw + body
    return out + central + b"PK\x05\x06" + struct.pack("<HHHHIIH", 0, 0, len(entries), len(entries), len(central), len(out), 0)


def path_of(name):
    name = name.split("\0")[0].replace("\\", "/")
    return [c for c in name.split("/") if c not in ("", ".", "..")]


def extract(entries, root):
    """What the specification says, done on a directory: (made, tree)."""
    fs = {(): "dir"}

    def blocked(p):
        return any(fs.get(p[:i], "dir") != "dir" for i in range(len(p) + 1))

    def dirs(p):
        for i in range(len(p) + 1):
            fs[p[:i]] = "dir"
    for n, (name, data) in enumerate(entries):
        p = tuple(path_of(name))
        if name[-1:] in ("/", "\\"):
            if blocked(p):
                return False, []
            dirs(p)
        else:
            if p == () or blocked(p[:-1]) or fs.get(p) == "dir":
                return False, []
            dirs(p[:-1])
            fs[p] = n
    if not entries or not path_of(entries[0][0]):
        return False, []
    for p, d in sorted(fs.items(), key=lambda x: len(x[0])):
        q = os.path.join(root, *p)
        if d == "dir":
            os.makedirs(q, exist_ok=True)
        else:
            with open(q, "wb") as f:
                f.write(entries[d][1])
    return True, [{"p": [core.codes(c) for c in p], "d": "dir" if d == "dir" else str(d + 1)} for p, d in sorted(fs.items())]


def listing(root):
    out = []
    for top, dirs, files in os.walk(root):
        out += [os.path.relpath(os.path.join(top, x), root) for x in dirs + files]
    return sorted(out)


class Pen:
    """A place where an archive that escapes its directory can reach nothing but this place."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.root = tempfile.mkdtemp(prefix="verif-pen-")
        os.chmod(self.root, 0o755)
        self.tmp = os.path.join(self.root, "w", "x", "y", "z", "tmp")
        os.makedirs(self.tmp)
        os.makedirs(os.path.join(self.root, "abs"))
        self.before = None
        self.drv = None
        self.open()

    def open(self):
        try:
            self.drv = core.Driver(env={"TMPDIR": self.tmp}, user=self.root)
        except (PermissionError, subprocess.SubprocessError):      # no other user here: the names used stay inside this place anyway
            self.drv = core.Driver(env={"TMPDIR": self.tmp})

    def close(self):
        self.drv.close()
        shutil.rmtree(self.root, ignore_errors=True)

    def load(self, data):
        if self.drv.dead:
            self.drv.close()
            self.open()
        z = os.path.join(self.root, "archive.zip")
        with open(z, "wb") as f:
            f.write(data)
        os.chmod(z, 0o644)
        before = listing(self.root)
        r = self.drv.call("engine_zip", h="z", path=z)
        after = listing(self.root)
        rel = os.path.relpath(self.tmp, self.root) + "/"
        new = [x for x in after if x not in before]
        left = [x for x in new if x.startswith(rel + "temp_dir_nlu_")]
        outside = [x for x in new if x not in left]
        for x in sorted(new, key=len):
            q = os.path.join(self.root, x)
            if os.path.isdir(q) and not os.path.islink(q):
                shutil.rmtree(q, ignore_errors=True)
            elif os.path.lexists(q):
                os.unlink(q)
        return r, outside, left


def check(ctx):
    core.build()
    rng, drv = ctx.rng, ctx.driver()
    dump = os.path.join(ctx.dir, "archives.csv")
    ctx.model_check("ZipDesign", CFG % ("97, 46, 47", 3, 2), env={"DUMP": dump}, timeout=3000)
    ctx.model_check("ZipDesign", CFG % ("97, 98, 47, 92, 0", 2, ctx.pick(2, 3)), env={"DUMP": dump}, timeout=3000)
    if ctx.thorough():
        ctx.model_check("ZipDesign", CFG % ("97, 46, 47, 92", 4, 2), env={"DUMP": os.path.join(ctx.dir, "unused.csv")}, timeout=3000)
    pen = Pen(ctx)
    try:
        archives(ctx, rng, drv, pen, dump)
    finally:
        pen.close()


def archives(ctx, rng, drv, pen, dump):
    events, sources = [], []

    def one(entries, damage="none", data=None, texts=(), reqs=(), **how):
        d = ctx.fresh_dir("plain")
        made, tree = extract(entries, d)
        res = "none"
        if made:
            r = drv.call("engine_load", h="d", path=os.path.join(d, path_of(entries[0][0])[0]))
            res = r["r"]
        if data is None:
            data = write_zip(entries, **how)
        r, outside, left = pen.load(data)
        same = True
        if r["r"] == "ok" and res == "ok":
            for q in reqs:
                same = same and outcome(pen.drv.send(dict(q, h="z"))) == outcome(drv.send(dict(q, h="d")))
        events.append({"op": "zip", "names": [core.codes(n) for n, _ in entries], "tree": tree, "made": made, "damage": damage, "dir": res,
                       "r": r["r"], "same": same, "outside": [core.codes(x) for x in outside], "left": [core.codes(x) for x in left]})
        sources.append({"names": [n for n, _ in entries], "reply": r, "outside": outside, "left": left, "damage": damage})
        shutil.rmtree(d, ignore_errors=True)
        return data

    # the archives of the design
    small = []
    for line in sorted(set(open(dump))):
        line = json.loads(line)
        small.append((json.loads(line) if isinstance(line, str) else line)["names"])
    for names in rng.sample(small, ctx.pick(600, len(small) if len(small) < 20000 else 20000)):
        one([("".join(map(chr, n)), b"{}") for n in names], deflate=rng.random() < 0.5)
    replayed = len(events)
    # archives of engines
    for n in range(ctx.pick(45, 600)):
        d = ctx.fresh_dir("eng")
        if n % 3 == 0:
            load.base(d, "ABC"[n // 3 % 3])
            top = "m"
            reqs = [{"op": "parse", "text": t, "ia": 2, "sa": 2} for t in load.TEXTS] + \
                   [{"op": "get_slots", "text": t, "intent": "go"} for t in load.TEXTS]
        else:
            w = engine.random_engine(rng, os.path.join(d, "m"), drv)
            top = "m"
            reqs = [random_request(rng, w, w.text(clean=rng.random() < 0.6)) for _ in range(12)]
        files = []
        for x, dirs, names in os.walk(os.path.join(d, top)):
            for f in names:
                p = os.path.join(x, f)
                files.append((os.path.relpath(p, d), open(p, "rb").read()))
            for f in dirs:
                files.append((os.path.relpath(os.path.join(x, f), d) + "/", b""))
        shutil.rmtree(d, ignore_errors=True)
        for _ in range(ctx.pick(4, 8)):
            entries = list(files)
            rng.shuffle(entries)
            kind = rng.choice(["plain", "plain", "slashes", "up", "absolute", "extra", "twice", "nested", "nodirs", "first", "nul", "other-top"])
            if kind == "nodirs":
                entries = [e for e in entries if not e[0].endswith("/")]
            entries = [twisted(rng, kind, pen, e) for e in entries]
            if kind == "extra":
                entries[rng.randint(1, len(entries)):0] = [(rng.choice(["../escaped.txt", "../../escaped", "../../../x/escaped", "extra/file",
                    "/" + pen.root.lstrip("/") + "/abs/escaped", "m/../../escaped", "..\\..\\escaped", "m/caf\u00e9", "m/./x", "~/x", "C:\\x",
                    "m/" + "d/" * 30 + "deep"]), b"data") for _ in range(rng.randint(1, 3))]
            if kind == "twice":
                i = next(i for i, e in enumerate(entries) if e[0].endswith("nlu_engine.json"))
                entries.insert(rng.randint(0, i), (entries[i][0], rng.choice([b"{}", entries[i][1] + b", and more"])))
                if rng.random() < 0.3:
                    entries.append((entries[i + 1][0], b"{}"))
            if n % 15 == 3 and kind == "plain":      # many files, and the engine's own come last
                entries = [entries[0]] + [("m/more/%d" % k, b"{}") for k in range(rng.choice([300, 700]))] + entries[1:]
            if n % 15 == 6 and kind == "plain":      # large ones: blanks are nothing in JSON
                entries = [(a, b" " * rng.choice([70000, 300000]) + b if a.endswith(".json") and rng.random() < 0.3 else b) for a, b in entries]
            if kind == "nested":
                entries = [("outer/" + a, b) for a, b in entries]
            if kind == "first":
                entries.insert(0, (rng.choice(["a.txt", "__MACOSX/", "./", "../", "/", "m", "m/"]), b""))
            if kind == "other-top":
                entries.append(("n/nlu_engine.json", b"{}"))
            data = one(entries, reqs=reqs, deflate=[rng.random() < 0.5 for _ in entries], mode=rng.choice([None, 0o120777, 0o100000, 0o40755]))
            sources[-1]["kind"] = kind
            how = rng.choice(["cut", "cut", "flip", "flip", "junk", "entry", "entry", "nothing"])
            if how == "cut":
                cut = rng.choice([rng.randrange(len(data)), len(data) - rng.randint(1, 60), 0, 22])
                one(entries, "cut", data[:max(0, min(cut, len(data) - 1))], reqs=reqs)
            elif how == "flip":
                b = bytearray(data)
                for _ in range(rng.choice([1, 1, 2, 10])):
                    b[rng.choice([rng.randrange(len(b)), len(b) - rng.randint(1, min(len(b), 4000))])] ^= 1 << rng.randrange(8)
                one(entries, "other", bytes(b), reqs=reqs)
                events.pop() if renamed(bytes(b), entries) else None
                sources[len(events):] = []
            elif how == "entry":
                k = rng.randrange(len(entries))
                if rng.random() < 0.6:      # of a file that an engine may do without
                    k = rng.choice([j for j, e in enumerate(entries) if "resources" in e[0]] or [k])
                one(entries, "entry", unreadable(rng, data, entries, k), reqs=reqs)
            elif how == "junk":
                one(entries, "other", rng.choice([b"junk" * 10 + data, data + b"\0" * 5, b"PK\x05\x06" + b"\0" * 18, b"PK", b"not an archive" * 9]), reqs=reqs)
    ctx.notes["archives_of_the_design_replayed"] = replayed
    ctx.notes["archives_loaded"] = len(events)
    ctx.notes["archives_accepted"] = sum(e["r"] == "ok" for e in events)
    ctx.notes["archives_with_an_engine"] = sum(e["dir"] == "ok" for e in events)
    for s in sources[-5:]:
        ctx.sample(json.dumps(s)[:300])
    ctx.judge("ZipTrace", events, sources)
    ok = next(e for e in events if e["r"] == "ok")
    ctx.demonstrate_binding("ZipTrace", events, [dict(ok, same=False), dict(ok, r="err"), dict(ok, left=[[97]]), dict(ok, outside=[[97]]),
                                                 dict(next(e for e in events if e["dir"] != "ok"), r="ok")])


def unreadable(rng, data, entries, k):
    """The same archive, in which the k-th entry cannot be read."""
    b = bytearray(data)
    i = struct.unpack("<I", data[-6:-2])[0]
    for _ in range(k):
        n, e, c = struct.unpack("<HHH", data[i + 28:i + 34])
        i += 46 + n + e + c
    at = struct.unpack("<I", data[i + 42:i + 46])[0]
    ways = ["signature", "method", "encrypted", "far"] + ["crc"] * 3 * bool(entries[k][1])
    how = rng.choice(ways)
    if how == "signature":
        b[at:at + 4] = b"PK\x03\x05"
    elif how == "far":
        b[i + 42:i + 46] = struct.pack("<I", len(data) + rng.randint(0, 99))
    elif how == "method":
        b[i + 10:i + 12] = b[at + 8:at + 10] = b"\x63\0"
    elif how == "encrypted":
        b[i + 8] |= 1
        b[at + 6] |= 1
    else:
        b[i + 16] ^= 255
        b[at + 14] ^= 255
    return bytes(b)


def renamed(data, entries):
    """A flipped bit changed the name of an entry: the archive is one of other files."""
    at = data.rfind(b"PK\x05\x06")
    if at < 0 or len(data) < at + 22:
        return True
    count, size, off = struct.unpack("<HII", data[at + 10:at + 20])
    i, names = off, []
    for _ in range(count):
        if data[i:i + 4] != b"PK\x01\x02":
            return False
        n, e, c = struct.unpack("<HHH", data[i + 28:i + 34])
        names.append(data[i + 46:i + 46 + n])
        i += 46 + n + e + c
    return names != [n.encode() for n, _ in entries]


def twisted(rng, kind, pen, e):
    name, data = e
    if kind == "slashes":
        name = name.replace("/", rng.choice(["\\", "//", "/./", "/"]))
    elif kind == "up":
        name = rng.choice(["../", "../../", "./", "/", "..\\"]) + name.replace("/", rng.choice(["/", "/../"]), 1)
    elif kind == "absolute":
        name = rng.choice(["/", "//", "\\"]) + name
    elif kind == "nul" and not name.endswith("/"):
        name = name + rng.choice(["", "", "\0.txt", "\0/.."])
    return name, data
