ID = 'missing-filler-no-slots'
PROPERTY = 'C34'
NEEDS = 'a probabilistic parser whose classifier answers an intent for which the parser has no slot filler'
BREAKS = 'the parser answers this intent without slots instead of failing with an error that names it'
EDITS = [('src/intent_parser/probabilistic_intent_parser.rs', '            self.slot_fillers\n                .get(name)\n                .ok_or_else(|| SnipsNluError::UnknownIntent(name.to_string()))?\n                .get_slots(input)?\n        } else', '            self.slot_fillers\n                .get(name)\n                .map(|slot_filler| slot_filler.get_slots(input))\n                .unwrap_or_else(|| Ok(vec![]))?\n        } else')]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en")
    d = Driver()
    d.ok("res_load", h="r", **paths)
    M.probabilistic(path("p"), "en", dict(intent_list=["a", "b", None], intercept=[1.0, 2.0, -3.0], coeffs=[[0.0]] * 3), {"a": {}})
    d.ok("parser_load", h="p", kind="probabilistic", path=path("p"), res="r")
    r = d.call("parser_parse", h="p", text="hello", wl=None)
    return "" if r["r"] == "err" else r
main(body)
'''
