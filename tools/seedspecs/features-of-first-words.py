ID = 'features-of-first-words'
PROPERTY = 'C25'
NEEDS = 'a text of more than 128 words, one of the last of which is in the vocabulary'
BREAKS = 'the words beyond the 128th have no weight in the features'
EDITS = [('src/intent_classifier/featurizer.rs', '        let tokens = tokenize_light(utterance, self.language);', '        let mut tokens = tokenize_light(utterance, self.language);\n        tokens.truncate(128);')]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en")
    M.classifier(path("c"), "en", ["a", None], [0.0], [[0.0, 0.0]], vocab={"light": 0, "zzz": 1})
    d = Driver()
    d.ok("res_load", h="r", **paths)
    d.ok("clf_load", h="c", path=path("c"), res="r")
    got = [d.ok("clf_features", h="c", text="well " * n + "light") for n in (3, 200)]
    return "" if [[round(x, 3) for x in r] for r in got] == [[1.0, 0.0]] * 2 else got
main(body)
'''
