ID = 'listing-one-per-intent'
PROPERTY = 'C05'
NEEDS = 'two parsers, the second one listing last the absence of intent, which the first one does not list'
BREAKS = 'the absence of intent is missing from the listing of the engine'
EDITS = [('src/nlu_engine.rs', '            for res in parser_results.into_iter() {\n                let is_better', '            for res in parser_results.into_iter().take(nb_intents) {\n                let is_better')]
DEMO = '''
from kit import *
def body():
    M.engine(path("e"), "en", {"a": {}, "b": {}}, {}, [
        ("q", lambda p: M.probabilistic(p, "en", dict(intent_list=["a", "b"], intercept=[1.0, -1.0], coeffs=[[0.0], [0.0]]), {"a": {}, "b": {}})),
        ("p", lambda p: M.lookup(p, "en", [("turn on", "a", []), ("turn off", "b", [])],
        [{"intent_group": ["a", "b"], "entity_scope": {"builtin": [], "custom": []}}]))])
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.ok("get_intents", h="e", text="turn on")
    return "" if sorted(str(x["intentName"]) for x in r) == ["None", "a", "b"] else r
main(body)
'''
