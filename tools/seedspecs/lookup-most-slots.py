ID = "lookup-most-slots"
PROPERTY = "C14"
NEEDS = "a text whose words are in the table of one intent both as given and with an entity replaced"
BREAKS = "the reading with most slots weighs in instead of the one with fewest"
EDITS = [("src/intent_parser/lookup_intent_parser.rs", "                    .max_by(|(_, score_a), (_, score_b)| score_a.partial_cmp(score_b).unwrap())",
          "                    .max_by(|(_, score_a), (_, score_b)| score_b.partial_cmp(score_a).unwrap())")]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en", custom={"city": [("paris", "Paris")]})
    M.lookup(path("p"), "en", [("go to paris", "a", []), ("go to % city %", "a", ["where"])],
             [{"intent_group": ["a"], "entity_scope": {"builtin": [], "custom": ["city"]}}])
    d = Driver()
    d.ok("res_load", h="r", **paths)
    d.ok("parser_load", h="p", kind="lookup", path=path("p"), res="r")
    r = d.ok("parser_parse", h="p", text="go to paris")
    return "" if r["intent"]["intentName"] == "a" and r["slots"] == [] else r
main(body)
'''
