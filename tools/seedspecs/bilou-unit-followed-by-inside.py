ID = "bilou-unit-followed-by-inside"
PROPERTY = "C10"
NEEDS = "a BILOU tagger giving a unit tag immediately followed by an inside or last tag"
BREAKS = "the token of the unit tag belongs to no slot"
EDITS = [("src/slot_filler/crf_utils.rs", """            || tags[i].starts_with(LAST_PREFIX)
            || tags[i].starts_with(UNIT_PREFIX)
            || tags[i + 1].starts_with(BEGINNING_PREFIX)
            || tags[i + 1].starts_with(UNIT_PREFIX)
""", """            || tags[i].starts_with(LAST_PREFIX)
            || tags[i + 1].starts_with(BEGINNING_PREFIX)
            || tags[i + 1].starts_with(UNIT_PREFIX)
""")]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en", custom={})
    M.slot_filler(path("f"), "en", "i", {"s": "city"}, {"x": "U-s", "y": "L-s"}, 2)
    d = Driver()
    d.ok("res_load", h="r", **paths)
    d.ok("sf_load", h="f", path=path("f"), res="r")
    got = [x["range"] for x in d.ok("get_slots", h="f", text="go x y")]
    return "" if got == [[3, 4], [5, 6]] else got
main(body)
'''
