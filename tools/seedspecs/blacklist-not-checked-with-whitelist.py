ID = 'blacklist-not-checked-with-whitelist'
PROPERTY = 'C02'
NEEDS = 'a whitelist of known intents and a blacklist naming an unknown one, both given'
BREAKS = 'the unknown intent is accepted instead of being refused'
EDITS = [('src/nlu_engine.rs', 'vec![intents_whitelist.as_ref(), intents_blacklist.as_ref()]', 'vec![intents_whitelist.as_ref().or(intents_blacklist.as_ref())]')]
DEMO = '''
from kit import *
def body():
    M.engine(path("e"), "en", {"a": {}, "b": {}}, {}, [("p", lambda p: M.lookup(p, "en", [("turn on", "a", [])],
        [{"intent_group": ["a", "b"], "entity_scope": {"builtin": [], "custom": []}}]))])
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.call("parse", h="e", text="turn on", wl=["a"], bl=["nobody"], ia=0, sa=0)
    return "" if r["r"] == "err" else r
main(body)
'''
