ID = 'json-forgets-blacklist'
PROPERTY = 'C27'
NEEDS = 'a parse into JSON through the C interface with both a whitelist and a blacklist'
BREAKS = 'the blacklist is ignored, only in the variant that gives JSON'
EDITS = [('ffi/src/lib.rs', '    };\n    let results = nlu_engine.parse_with_alternatives(\n        &input,\n        opt_whitelist,\n        opt_blacklist,\n', '    };\n    let results = nlu_engine.parse_with_alternatives(\n        &input,\n        opt_whitelist.clone(),\n        opt_blacklist.filter(|_| opt_whitelist.is_none()),\n')]
DEMO = '''
from kit import *
def body():
    M.engine(path("e"), "en", {"a": {}, "b": {}}, {}, [("p", lambda p: M.lookup(p, "en", [("turn on", "a", [])],
        [{"intent_group": ["a", "b"], "entity_scope": {"builtin": [], "custom": []}}]))])
    d = Driver()
    d.ok("ffi", f="create_dir", h="e", path=path("e"))
    r = d.ok("ffi", f="parse_json", h="e", text="turn on", wl=["a", "b"], bl=["a"])
    assert "intentName" in json.dumps(r), r
    return "" if '"intentName": "a"' not in json.dumps(r) else r
main(body)
'''
