"""make_seed.py SPEC.py: plants a bug in a scratch copy, checks it (builds, stable tests pass, the demonstration tells
it from the unchanged tree) and writes it to seeded/<id>.  SPEC.py defines ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])
out = os.path.join(V, "seeded", spec["ID"])
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
if subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip():
    sys.exit("repo not clean")
for d in ["deps", "harness"] + (["pyffi"] if os.path.isdir(V + "/pyffi") else []):
    shutil.copytree(os.path.join(V, d), os.path.join(out, d), ignore=shutil.ignore_patterns("target", "__pycache__"))
shutil.copy(os.path.join(V, "vf", "models.py"), out)
shutil.copy(os.path.join(V, "tools", "seedkit", "kit.py"), out)
open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(os.path.join(out, "demo.sh"), 0o755)
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
          open(os.path.join(out, "meta.json"), "w"), indent=1)


def demo():
    p = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(p.returncode, p.stdout[-500:].strip())
    return p.returncode


try:
    for f, old, new in spec["EDITS"]:
        p = os.path.join("/repo", f)
        s = open(p, encoding="utf-8").read()
        if s.count(old) != 1:
            sys.exit("%d occurrences of %r" % (s.count(old), old))
        open(p, "w", encoding="utf-8").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    b = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode:
        sys.exit("does not build: " + b.stdout[-2000:])
    t = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seed-test.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("tests", open("/tmp/seed-test.json").read()[:300].replace("\n", " "))
    with_patch = demo()
    checks = sys.argv[2:]
    for c in checks:
        r = subprocess.run(["python3", "vf/run.py", c, "--tier", "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VERIF_SEED="1"))
        print("CHECK", c, r.returncode, r.stdout[-700:].strip())
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
without = demo()
print("SEED", spec["ID"], "GOOD" if with_patch not in (0, 3) and without == 0 else "BAD")
