ID = 'sixteen-alternatives'
PROPERTY = 'C04'
NEEDS = 'an engine of more than 17 intents, asked for more than 16 alternatives'
BREAKS = 'fewer alternatives than asked although more intents are left'
EDITS = [('src/nlu_engine.rs', '            .take(intents_alternatives)', '            .take(intents_alternatives.min(16))')]
DEMO = '''
from kit import *
def body():
    names = ["skill%02d" % k for k in range(20)]
    M.engine(path("e"), "en", {i: {} for i in names}, {}, [("p", lambda p: M.lookup(p, "en", [("turn on", names[0], [])],
        [{"intent_group": names, "entity_scope": {"builtin": [], "custom": []}}], intents=names))])
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.ok("parse", h="e", text="turn on", wl=None, bl=None, ia=18, sa=0)
    return "" if len(r["alternatives"]) == 18 else len(r["alternatives"])
main(body)
'''
