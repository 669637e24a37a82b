ID = 'unknown-slot-names-intent'
PROPERTY = 'C33'
NEEDS = 'extraction of a slot that the intent does not have'
BREAKS = 'the error names the intent, which is known, instead of the unknown slot'
EDITS = [('src/nlu_engine.rs', 'format_err!("Unknown slot: {}", &slot_name)', 'format_err!("Unknown slot: {}", &intent_name)')]
DEMO = '''
from kit import *
def body():
    M.engine(path("e"), "en", {"a": {"n": "snips/number"}}, {}, [])
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.call("extract_slot", h="e", text="make", intent="a", slot="other", sa=0)
    return "" if r["r"] == "err" and "other" in " ".join(r["chain"]) else r
main(body)
'''
