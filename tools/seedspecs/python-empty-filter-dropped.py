ID = 'python-empty-filter-dropped'
PROPERTY = 'C28'
NEEDS = 'a parse of the Python engine with an empty list of intents as whitelist'
BREAKS = 'the empty whitelist is taken as no whitelist: an intent is returned'
EDITS = [('platforms/python/snips_nlu_rust/nlu_engine.py', '        if intents_whitelist is not None:', '        if not intents_whitelist:\n            intents_whitelist = None\n        else:')]
DEMO = '''
from kit import *
def body():
    build("verif-pyffi")
    M.engine(path("e"), "en", {"a": {}}, {}, [("p", lambda p: M.lookup(p, "en", [("turn on", "a", [])],
        [{"intent_group": ["a"], "entity_scope": {"builtin": [], "custom": []}}]))])
    top = path("py")
    shutil.copytree("/repo/platforms/python/snips_nlu_rust", os.path.join(top, "snips_nlu_rust"), ignore=shutil.ignore_patterns("tests", "dylib", "__pycache__"))
    os.makedirs(os.path.join(top, "snips_nlu_rust", "dylib"))
    shutil.copy(path("target", "debug", "libverif_pyffi.so"), os.path.join(top, "snips_nlu_rust", "dylib", "libsnips_nlu_python_ffi.so"))
    code = "import sys; sys.path.insert(0, sys.argv[1]); from snips_nlu_rust import NLUEngine; print(NLUEngine(engine_dir=sys.argv[2]).parse('turn on', intents_whitelist=[])['intent']['intentName'])"
    p = subprocess.run([sys.executable, "-c", code, top, path("e")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return "" if p.stdout.split()[-1:] in (["None"], ["null"]) else p.stdout
main(body)
'''
