ID = 'injected-stems-first'
PROPERTY = 'C21'
NEEDS = 'values injected together into an entity that is searched with and without stems, where the stems of one are the words of another that comes with it'
BREAKS = 'the words of the second value resolve to the first one'
EDITS = [('src/injection/injection.rs', '            let mut values = entity_values;\n            values.extend(stemmed_entity_values);', '            let mut values = stemmed_entity_values;\n            values.extend(entity_values);')]
DEMO = '''
from kit import *
def body():
    p = M.engine(path("e"), "en", {"a": {"s": "thing"}}, {"thing": True}, [("p", lambda p: M.lookup(p, "en", [("turn on", "a", [])],
        [{"intent_group": ["a"], "entity_scope": {"builtin": [], "custom": []}}]))],
        res=dict(stems={"light": ["lights"]}, usage=2, custom={"thing": []}))
    d = Driver()
    d.ok("inject", path=path("e"), vanilla=False, values=[["thing", "lights"], ["thing", "light"]])
    d.ok("res_load", h="r", **p)
    r = d.ok("custom", h="r", text="light", kinds=["thing"])
    return "" if [x["resolved"] for x in r] == ["light"] else r
main(body)
'''
