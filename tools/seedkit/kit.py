"""Support of the demonstrations: builds the driver next to this file against /repo and talks to it."""
import json, os, shutil, subprocess, sys, tempfile, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import models as M  # noqa: E402

TMP = tempfile.mkdtemp(prefix="demo-")


def build(what="driver"):
    for d in ("deps", "harness", "pyffi"):
        if os.path.isdir(os.path.join(HERE, d)):
            shutil.copytree(os.path.join(HERE, d), os.path.join(TMP, d), dirs_exist_ok=True)
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=os.path.join(TMP, "target"), RUSTC_WRAPPER="")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"] + ([] if what == "driver" else ["-p", what]),
                       cwd=os.path.join(TMP, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280)
    if p.returncode:
        print(p.stdout[-3000:])
        sys.exit(3)


class Driver:
    def __init__(self, env=None, timeout=60, one_cpu=False):
        e = dict(os.environ, VERIF_FFI_QUIET="1")
        e.update(env or {})
        self.timeout = timeout
        self.p = subprocess.Popen((["taskset", "-c", "0"] if one_cpu else []) + [os.path.join(TMP, "target", "debug", "driver")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)

    def call(self, op, **kw):
        t = threading.Timer(self.timeout, self.p.kill)
        t.start()
        try:
            self.p.stdin.write((json.dumps(dict(op=op, **kw)) + "\n").encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b""
        t.cancel()
        return json.loads(line) if line else {"r": "died"}

    def ok(self, op, **kw):
        r = self.call(op, **kw)
        assert r["r"] == "ok", (op, kw, r)
        return r["v"]


def path(*a):
    return os.path.join(TMP, *a)


def main(body):
    """body() returns what is wrong, or nothing."""
    try:
        build()
        try:
            bad = body()
        except AssertionError as e:
            bad = "unexpected: %s" % e
        print("WRONG: %s" % (bad,) if bad else "as it should be")
        sys.exit(1 if bad else 0)
    finally:
        shutil.rmtree(TMP, ignore_errors=True)
