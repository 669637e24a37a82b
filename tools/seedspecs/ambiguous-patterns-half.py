ID = "ambiguous-patterns-half"
PROPERTY = "C13"
NEEDS = "a text matched by patterns of exactly two intents with the same number of slots"
BREAKS = "an intent is returned although its weight is not more than half of the total"
EDITS = [("src/intent_parser/deterministic_intent_parser.rs", "                if res.intent.confidence_score <= 0.5 {", "                if res.intent.confidence_score < 0.5 {")]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en", custom={})
    M.deterministic(path("p"), "en", {"a": ["^\\\\\\\\s*hello\\\\\\\\s*$".replace("\\\\\\\\", "\\\\")], "b": ["^\\\\s*(hello|hi)\\\\s*$"]}, {}, {"a": {}, "b": {}})
    d = Driver()
    d.ok("res_load", h="r", **paths)
    d.ok("parser_load", h="p", kind="deterministic", path=path("p"), res="r")
    r = d.ok("parser_parse", h="p", text="hello")
    return r["intent"]["intentName"] and r
main(body)
'''
