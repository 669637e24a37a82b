ID = 'stop-words-whitelist-required'
PROPERTY = 'C32'
NEEDS = 'a model of rule-based parser without the optional list of kept stop words'
BREAKS = 'the model is refused'
EDITS = [('src/models/intent_parser.rs', '    #[serde(default)]\n    pub stop_words_whitelist: HashMap<IntentName, Vec<String>>,\n    pub config: DeterministicParserConfig,', '    pub stop_words_whitelist: HashMap<IntentName, Vec<String>>,\n    pub config: DeterministicParserConfig,')]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en")
    M.deterministic(path("p"), "en", {"a": ["^turn on$"]}, {}, {"a": {}})
    d = Driver()
    d.ok("res_load", h="r", **paths)
    r = d.call("parser_load", h="p", kind="deterministic", path=path("p"), res="r")
    return "" if r["r"] == "ok" else r
main(body)
'''
