ID = "resolve-value-bytes"
PROPERTY = "C08"
NEEDS = "a slot whose value holds a character outside ASCII and whose entity is found in the value alone but not in the whole text"
BREAKS = "the slot is not resolved: it keeps its raw value or disappears"
EDITS = [("src/slot_utils.rs", "                if entity.value.chars().count() == internal_slot.value.chars().count() {",
          "                if entity.value.len() == internal_slot.value.chars().count() {")]
DEMO = '''
from kit import *
def body():
    # in the whole text the longer value wins: "caf\\u00e9 noir"; the slot covers the first word only
    M.engine(path("e"), "en", {"i": {"s": "drink"}}, {"drink": False}, [("p", lambda p: M.probabilistic(p, "en", {"intent_list": ["i"], "featurizer": False},
        {"i": {"mapping": {"s": "drink"}, "tags": {"caf\\u00e9": "B-s", "cafe": "B-s"}}}))],
        res={"custom": {"drink": [("caf\\u00e9", "coffee"), ("caf\\u00e9 noir", "black coffee")]}})
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.ok("parse", h="e", text="a caf\\u00e9 noir")
    got = [(x["rawValue"], x["value"]["value"]) for x in r["slots"]]
    return "" if got == [("caf\\u00e9", "coffee")] else r
main(body)
'''
