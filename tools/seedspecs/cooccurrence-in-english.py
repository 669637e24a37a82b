ID = 'cooccurrence-in-english'
PROPERTY = 'C30'
NEEDS = 'a model in another language than English whose classifier uses word pairs, and a text whose words are separated differently in this language'
BREAKS = 'the words of the pairs are those of English'
EDITS = [('src/intent_classifier/featurizer.rs', '        let tokens = tokenize_light(&*enriched_utterance, self.language);', '        let tokens = tokenize_light(&*enriched_utterance, NluUtilsLanguage::EN);')]
DEMO = '''
from kit import *
def body():
    fr = chr(0xE000 + 3)
    paths = M.resources(path("r"), "fr")
    M.classifier(path("c"), "fr", ["a", None], [0.0], [[0.0, 0.0]], vocab={"x": 0},
                 cooc={"word_pairs": {"0": ["un", "deux"]}, "config": {"window_size": None, "filter_stop_words": False, "keep_order": True, "unknown_words_replacement_string": None}})
    d = Driver()
    d.ok("res_load", h="r", **paths)
    d.ok("clf_load", h="c", path=path("c"), res="r")
    r = d.ok("clf_features", h="c", text="un" + fr + "deux")
    return "" if r[-1] == 1.0 else r
main(body)
'''
