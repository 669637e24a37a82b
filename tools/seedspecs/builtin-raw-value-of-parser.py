ID = 'builtin-raw-value-of-parser'
PROPERTY = 'C06'
NEEDS = 'extraction of a builtin slot from a text whose value has capital letters'
BREAKS = 'the raw value is the lower-cased text given to the entity parser instead of the text at the range'
EDITS = [('src/nlu_engine.rs', '            raw_value: substring_with_char_range(input, &builtin_entity.range),\n            value: builtin_entity.entity,', '            raw_value: builtin_entity.value,\n            value: builtin_entity.entity,')]
DEMO = '''
from kit import *
def body():
    M.engine(path("e"), "en", {"a": {"n": "snips/number"}}, {}, [], res=dict(builtin=[{"phrase": "two", "kind": "snips/number", "value": M.number(2)}]))
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.ok("extract_slot", h="e", text="make TWO", intent="a", slot="n", sa=0)
    return "" if r and r["rawValue"] == "TWO" else r
main(body)
'''
