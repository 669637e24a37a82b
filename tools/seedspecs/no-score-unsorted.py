ID = 'no-score-unsorted'
PROPERTY = 'C24'
NEEDS = 'a classifier that cannot score, whose list of intents does not start with the absence of intent'
BREAKS = 'the intents are not listed in decreasing order of score, and another intent than the absence of intent is answered'
EDITS = [('src/intent_classifier/log_reg_intent_classifier.rs', '                    confidence_score: if intent_name.is_none() { 1.0 } else { 0.0 },\n                })\n                .filter(is_allowed)\n                .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())\n', '                    confidence_score: if intent_name.is_none() { 1.0 } else { 0.0 },\n                })\n                .filter(is_allowed)\n')]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en")
    M.classifier(path("c"), "en", ["a", "b", None], [0.0] * 3, [[0.0]] * 3)
    d = Driver()
    d.ok("res_load", h="r", **paths)
    d.ok("clf_load", h="c", path=path("c"), res="r")
    r = d.ok("clf_intent", h="c", text="")
    return "" if r["intentName"] is None else r
main(body)
'''
