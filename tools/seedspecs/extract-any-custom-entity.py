ID = 'extract-any-custom-entity'
PROPERTY = 'C09'
NEEDS = 'extraction of a custom slot from a text holding a value of another custom entity after, or instead of, one of its own'
BREAKS = 'the value of another entity is returned'
EDITS = [('src/nlu_engine.rs', '        &input,\n        Some(&[entity_name.clone()]),\n        slot_alternatives,\n    )?;', '        &input,\n        None,\n        slot_alternatives,\n    )?;')]
DEMO = '''
from kit import *
def body():
    M.engine(path("e"), "en", {"a": {"where": "city"}}, {"city": False, "drink": False}, [],
             res=dict(custom={"city": [("paris", "Paris")], "drink": [("tea", "Tea")]}))
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.ok("extract_slot", h="e", text="some tea", intent="a", slot="where", sa=0)
    return "" if r is None else r
main(body)
'''
