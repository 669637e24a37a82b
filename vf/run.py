"""python3 vf/run.py C01 [--tier quick|thorough]"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vf import core  # noqa: E402

MODULES = {}
for m, props in {"engine": "C01 C02 C03 C04 C05 C06 C07 C08 C09", "crf": "C10 C29", "features": "C11 C12", "rules": "C13 C14 C15", "history": "C16 C17", "load": "C18 C19 C32", "archive": "C20",
                 "inject": "C21 C22 C23", "classifier": "C24 C25", "resources": "C26", "ffi": "C27", "pyapi": "C28", "lang": "C30", "total": "C31", "errors": "C33", "prob": "C34", "isolate": "C35"}.items():
    for p in props.split():
        MODULES[p] = m


def late(ctx):
    """An error of the check itself: what was found before still counts."""
    return (ctx.violations and ctx.finish()) or 2


def main(argv):
    prop = argv[0]
    if prop == "setup":
        try:
            core.build()
            return 0
        except core.ToolError as e:
            print("ERROR setup: %s" % e)
            return 2
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    ctx = core.Ctx(prop, tier, seed)
    try:
        mod = __import__("vf." + MODULES[prop], fromlist=["x"])
        mod.check(ctx)
    except core.ToolError as e:
        print("ERROR %s: %s" % (prop, e))
        return late(ctx)
    except Exception:
        traceback.print_exc()
        return late(ctx)
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
