ID = 'dedup-slots-adjacent-kept'
PROPERTY = 'C07'
NEEDS = 'a pattern with nested named groups: the slot inside another one starts where the outer one does'
BREAKS = 'both slots are returned although they overlap'
EDITS = [('src/intent_parser/deterministic_intent_parser.rs', '        ranges_overlap(&lhs_slot.char_range, &rhs_slot.char_range)', '        lhs_slot.char_range.start != rhs_slot.char_range.start\n            && ranges_overlap(&lhs_slot.char_range, &rhs_slot.char_range)')]
DEMO = '''
from kit import *
def body():
    M.engine(path("e"), "en", {"a": {"x": "ex", "y": "ey"}}, {"ex": True, "ey": True}, [("p", lambda p: M.deterministic(p, "en",
        {"a": [r"^\\s*go\\s+(?P<group0>(?P<group1>new)\\s+york)\\s*$"]}, {"group0": "x", "group1": "y"}, {"a": {"x": "ex", "y": "ey"}}))])
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.ok("parse", h="e", text="go new york", wl=None, bl=None, ia=0, sa=0)
    assert r["intent"]["intentName"] == "a", r
    return "" if len(r["slots"]) == 1 else r["slots"]
main(body)
'''
