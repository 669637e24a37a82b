ID = 'stop-words-of-kept-ones'
PROPERTY = 'C15'
NEEDS = 'a lookup parser whose stop words are disabled and whose model has a list of stop words kept by some intent'
BREAKS = 'the stop words of the other intents are ignored although stop words are disabled'
EDITS = [('src/intent_parser/lookup_intent_parser.rs', '        let stop_words = if model.config.ignore_stop_words {', '        let stop_words = if model.config.ignore_stop_words || !model.stop_words_whitelist.is_empty() {')]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en", stop_words=["the", "a"])
    M.lookup(path("p"), "en", [("turn on light", "a", []), ("turn the off", "b", [])],
             [{"intent_group": ["a", "b"], "entity_scope": {"builtin": [], "custom": []}}], stop_whitelist={"b": ["the"]}, ignore_stop_words=False)
    d = Driver()
    d.ok("res_load", h="r", **paths)
    d.ok("parser_load", h="p", kind="lookup", path=path("p"), res="r")
    r = d.ok("parser_parse", h="p", text="turn on the light")
    return "" if r["intent"]["intentName"] is None else r
main(body)
'''
