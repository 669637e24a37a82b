"""Shared machinery: builds the driver from /repo, runs it, runs TLC, reports."""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time, fcntl, select

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "target"))
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


NOBODY = 65534


class ToolError(Exception):
    """The check itself could not run: exit code 2."""


class BuildError(ToolError):
    pass


def cargo_env():
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in ("CARGO_PROFILE_DEV_DEBUG", "RUSTFLAGS"):
        env.pop(k, None)
    return env


def build(what=("driver",)):
    """Builds the driver (and the Python library) against the working tree of the repository."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for w in what:
            if w == "driver":
                cmd, cwd = ["cargo", "build", "--offline", "--locked", "-q"], os.path.join(VERIF, "harness")
            else:
                cmd, cwd = ["cargo", "build", "--offline", "--locked", "-q", "-p", "verif-pyffi"], os.path.join(VERIF, "harness")
            p = subprocess.run(cmd, cwd=cwd, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=600)
            if p.returncode != 0:
                raise BuildError("cannot build %s from %s:\n%s" % (w, REPO, "\n".join(
                    l for l in p.stdout.splitlines() if "warning" not in l)[-4000:]))
    return os.path.join(TARGET, "debug", "driver")


def terse(out):
    return "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic processing", "Linting", "  line", "  |")))[:5000]


class Driver:
    """One process of the driver. A process that dies or hangs is an observation, not an error."""

    def __init__(self, env=None, timeout=60, one_cpu=False, user=None, cmd=None, memory=None):
        e = dict(os.environ)
        e["VERIF_FFI_QUIET"] = "1"
        e.pop("RUST_BACKTRACE", None)
        e.update(env or {})
        self.timeout = timeout
        exe = os.path.join(TARGET, "debug", "driver")

        def start():
            if memory:                      # in GB
                resource.setrlimit(resource.RLIMIT_AS, (memory << 30, memory << 30))
            if one_cpu:
                os.sched_setaffinity(0, {min(os.sched_getaffinity(0))})
            if user:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
        if user:                            # a folder that is all this process may write
            exe = shutil.copy(exe, user)
            os.chmod(exe, 0o755)
            for top, dirs, files in os.walk(user):
                for x in [top] + [os.path.join(top, f) for f in files]:
                    os.chown(x, NOBODY, NOBODY)
        self.p = subprocess.Popen(cmd or [exe], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e,
                                  preexec_fn=start if one_cpu or user or memory else None)
        self.dead = None
        self.calls = 0

    def call(self, op, **kw):
        return self.send(dict(op=op, **kw))

    def send(self, req):
        if self.dead:
            return dict(self.dead)
        self.calls += 1
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
            timer = threading.Timer(self.timeout, self._hang)
            self._hung = False
            timer.start()
            line = self.p.stdout.readline()
            timer.cancel()
        except BrokenPipeError:
            line = b""
        if not line:
            code = self.p.wait()
            self.dead = {"r": "hang" if getattr(self, "_hung", False) else "died", "code": code}
            return dict(self.dead)
        out = json.loads(line)
        if out["r"] == "err" and any(c.startswith("DRIVER") for c in out["chain"]):
            raise ToolError("driver: %r -> %r" % (req, out))
        if out["r"] == "panic" and "DRIVER" in out.get("m", ""):
            raise ToolError("driver: %r -> %r" % (req, out))
        return out

    def _hang(self):
        self._hung = True
        self.p.kill()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def run_batch(requests, env=None, timeout=120):
    """Pipelined requests (faster than one at a time): list of replies, shorter if the driver died."""
    with Driver(env, timeout) as d:
        return [d.send(r) for r in requests]


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="%s-" % prop, dir=base)
        self.violations = []          # (clause, key, detail, replay data)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.actions = {}
        self.samples = []
        self.mc_runs = []
        self.notes = {}
        self.rejected_corruptions = 0
        self.n_dir = 0
        self.drv = None

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def driver(self):
        if self.drv is None or self.drv.dead:
            self.drv = Driver()
        return self.drv

    def fresh_dir(self, name="d"):
        self.n_dir += 1
        d = os.path.join(self.dir, "%s%d" % (name, self.n_dir))
        os.makedirs(d)
        return d

    def sample(self, text):
        if len(self.samples) < 8:
            self.samples.append(text)

    def violation(self, key, detail, replay):
        self.violations.append((key, detail, replay))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=8, extra=(), timeout=600, coverage=False):
        """Runs TLC on spec/<module>.tla with the text of a configuration."""
        meta = self.fresh_dir("tlc")
        cfg_path = os.path.join(meta, module + ".cfg")
        with open(cfg_path, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss16m", "-cp", TLA_JARS, "tlc2.TLC", "-metadir", meta, "-config", cfg_path,
               "-workers", str(workers), "-noGenerateSpecTE"] + list(extra)
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, out, gen, dist

    def model_check(self, module, cfg, env=None, workers=8, extra=(), timeout=600, min_states=2):
        """Exhaustive exploration of a bounded instance: every invariant must hold in the design."""
        code, out, gen, dist = self.tlc(module, cfg, env, workers, extra, timeout, coverage=True)
        if code != 0 or dist < min_states:
            raise ToolError("model checking of %s failed (%d):\n%s" % (module, code, terse(out)))
        acts = {}
        for name, a, b in re.findall(r"<(\w+) line [^>]*>: (\d+):(\d+)", out):
            acts[name] = max(acts.get(name, 0), int(b))
        idle = sorted(k for k, v in acts.items() if v == 0)
        if idle:
            raise ToolError("actions of %s never taken: %s" % (module, idle))
        self.states += dist
        self.transitions += gen
        self.mc_runs.append({"module": module, "distinct_states": dist, "states_generated": gen, "actions": acts})
        return out

    def refute(self, module, cfg, inv, what):
        """A careless variant of a design must violate this invariant (the others are left out: which one is found first varies)."""
        cfg = re.sub(r"(?m)^INVARIANTS?\b.*$", "INVARIANT " + inv, cfg)
        code, out, _, _ = self.tlc(module, cfg)
        if code == 0 or "Invariant %s is violated" % inv not in out:
            raise ToolError("%s is not refuted:\n%s" % (what, terse(out)))

    def simulate(self, module, cfg, env=None, num=100, depth=50, timeout=300):
        code, out, gen, dist = self.tlc(module, cfg, env, 1, ["-simulate", "num=%d" % num, "-depth", str(depth),
                                                             "-seed", str(self.seed)], timeout)
        if code != 0:
            raise ToolError("simulation of %s failed (%d):\n%s" % (module, code, terse(out)))
        return out

    def validate(self, module, events, cfg=None, sequential=False, env=None, timeout=600, count=True):
        """Checks a recorded trace (list of events) against spec/<module>.tla.
        Returns the list of (index, clause, detail) that TLC reports."""
        if not events:
            return []
        path = os.path.join(self.dir, "trace-%s-%d.ndjson" % (module, self.n_dir))
        self.n_dir += 1
        with open(path, "w") as f:
            for ev in events:
                f.write(json.dumps(ev) + "\n")
        e = {"TRACE": path}
        e.update(env or {})
        if cfg is None:
            cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
        code, out, gen, dist = self.tlc(module, cfg, e, 1 if sequential else 8, (), timeout)
        if code != 0:
            raise ToolError("TLC could not read the trace %s (%d):\n%s" % (path, code, terse(out)))
        found = []
        for line in re.findall(r'<<\s*"REJECT",\s*([^>]*(?:>(?!>)[^>]*)*)>>', out):
            parts = re.match(r'(\d+),\s*"(\w+)",\s*(.*)', line.strip(), re.S)
            if not parts:
                raise ToolError("unreadable report of TLC: %s" % line)
            found.append((int(parts.group(1)) - 1, parts.group(2), parts.group(3).strip()))
        m = re.search(r'<<"CHECKED", (\d+)>>', out)
        if count:
            self.traces += 1
            self.events += len(events)
            self.transitions += gen
            self.states += dist
        os.unlink(path)
        return found

    def judge(self, module, events, sources, clauses=None, sequential=False, env=None):
        """Validates the events; every rejection for this property becomes a violation."""
        clauses = clauses or (self.prop,)
        found = self.validate(module, events, sequential=sequential, env=env)
        seen = set()
        for i, clause, detail in found:
            if clause == "TOOL":
                raise ToolError("the harness recorded a wrong event: %s %s" % (detail, json.dumps(events[i])[:3000]))
            if clause in clauses:
                src = sources[i] if isinstance(sources, list) else sources
                key = detail.strip('"')
                if (i, key) in seen:
                    continue
                seen.add((i, key))
                self.violation(key, "%s: %s" % (module, detail), {"module": module, "event": events[i], "source": src})
        return found

    def demonstrate_binding(self, module, events, corrupt, sequential=False, env=None):
        """The specification must reject the trace once one recorded field is altered."""
        if any(not self.listed(key) for key, _, _ in self.violations):
            return                     # the recorded events are wrong already
        for ev in corrupt:
            bad = self.validate(module, ev if isinstance(ev, list) else [ev], sequential=sequential, env=env, count=False)
            if not bad:
                raise ToolError("binding: %s accepted a corrupted trace %s" % (module, json.dumps(ev)[:1500]))
            self.rejected_corruptions += 1

    def listed(self, key):
        """The known finding that this violation is, if any."""
        return next((k for k in load_known(self.prop) if k["key"] == key or
                     (k["key"].endswith("*") and key.startswith(k["key"][:-1]))), None)

    # ---------------------------------------------------------------- end of run
    def finish(self):
        if self.drv:
            self.drv.close()
        fresh, told = [], set()
        for key, detail, replay in self.violations:
            hit = self.listed(key)
            if hit:
                if hit["key"] not in told:
                    told.add(hit["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, hit["what"]))
            else:
                fresh.append((key, detail, replay))
        replays = []
        rdir = os.path.join(VERIF, "work", "replays")
        os.makedirs(rdir, exist_ok=True)
        for old in os.listdir(rdir):
            if old.startswith(self.prop + "-"):
                os.unlink(os.path.join(rdir, old))
        for n, (key, detail, replay) in enumerate(fresh[:int(os.environ.get("VERIF_REPLAYS", "5"))]):
            path = os.path.join(rdir, "%s-%d.json" % (self.prop, n))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "detail": detail, "seed": self.seed, "tier": self.tier,
                           "replay": replay}, f, indent=1, default=str)
            replays.append(path)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s %s" % (key, str(detail)[:600]))
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated_against_impl": self.events,
            "corrupted_traces_rejected": self.rejected_corruptions,
            "model_checking_runs": self.mc_runs,
            "samples": self.samples or ["(none)"],
        }
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": ["the crates that are not available offline are replaced by the stand-ins of /verif/deps",
                              "the exhaustive exploration is bounded by the constants of the configuration files"]}
        if fresh:
            ev["violations"] = [{"key": k, "detail": str(d)[:2000], "replay": r} for (k, d, _), r in zip(fresh, replays)]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % self.prop))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        print("%s %s: %d states, %d transitions, %d traces (%d events), %d violations, %.1fs" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, self.events, len(fresh), time.time() - self.t0))
        return 1 if fresh else 0


def load_known(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"key": m.group(2), "what": m.group(3)})
    return out


def codes(text):
    return [ord(c) for c in text]


NONE = "~none"
