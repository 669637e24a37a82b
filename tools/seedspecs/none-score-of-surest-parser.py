ID = 'none-score-of-surest-parser'
PROPERTY = 'C03'
NEEDS = 'a text for which no parser finds an intent, the last of them being less sure of it than an earlier one'
BREAKS = 'the score of the absence of intent is the highest given by a parser instead of that of the last one'
EDITS = [('src/nlu_engine.rs', '                none_score = internal_parsing_result.intent.confidence_score;', '                none_score = none_score.max(internal_parsing_result.intent.confidence_score);')]
DEMO = '''
from kit import *
def body():
    M.engine(path("e"), "en", {"a": {}}, {}, [
        ("p", lambda p: M.lookup(p, "en", [("turn on", "a", [])], [{"intent_group": ["a"], "entity_scope": {"builtin": [], "custom": []}}])),
        ("q", lambda p: M.probabilistic(p, "en", dict(intent_list=["a", None], intercept=[-1.0, 1.0], coeffs=[[0.0], [0.0]]), {"a": {}}))])
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.ok("parse", h="e", text="hello", wl=None, bl=None, ia=0, sa=0)["intent"]
    return "" if r["intentName"] is None and abs(r["confidenceScore"] - 0.7310586) < 1e-3 else r
main(body)
'''
