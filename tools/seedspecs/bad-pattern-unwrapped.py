ID = 'bad-pattern-unwrapped'
PROPERTY = 'C19'
NEEDS = 'a rule-based parser whose file has a pattern that is not a regular expression'
BREAKS = 'loading panics instead of giving an error'
EDITS = [('src/intent_parser/deterministic_intent_parser.rs', '                .map(|p| Ok(RegexBuilder::new(&p).case_insensitive(true).build()?))', '                .map(|p| Ok(RegexBuilder::new(&p).case_insensitive(true).build().unwrap()))')]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en")
    M.deterministic(path("p"), "en", {"a": ["^(turn on$"]}, {}, {"a": {}})
    d = Driver()
    d.ok("res_load", h="r", **paths)
    r = d.call("parser_load", h="p", kind="deterministic", path=path("p"), res="r")
    return "" if r["r"] == "err" else r
main(body)
'''
