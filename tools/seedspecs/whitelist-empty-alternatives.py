ID = "whitelist-empty-alternatives"
PROPERTY = "C01"
NEEDS = "filters that together leave no intent at all, and a parse that asks for intent alternatives"
BREAKS = "an intersection of filters that is empty is taken as no filter when alternatives are collected: forbidden intents are returned"
EDITS = [("src/nlu_engine.rs", "                            .map(|whitelist: &[&str]| whitelist.contains(&&**name))",
          "                            .map(|allowed: &[&str]| allowed.is_empty() || allowed.contains(&&**name))")]
DEMO = '''
from kit import *
def body():
    M.engine(path("e"), "en", {"a": {}, "b": {}}, {}, [("p", lambda p: M.lookup(p, "en", [("turn on", "a", []), ("turn off", "b", [])],
        [{"intent_group": ["a", "b"], "entity_scope": {"builtin": [], "custom": []}}]))])
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.ok("parse", h="e", text="turn on", wl=["a"], bl=["a"], ia=5, sa=0)
    names = [x["intent"]["intentName"] for x in r["alternatives"]] + [r["intent"]["intentName"]]
    return [n for n in names if n is not None]
main(body)
'''
