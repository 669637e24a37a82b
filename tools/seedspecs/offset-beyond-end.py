ID = "ngram-rare-word-unstemmed"
PROPERTY = "C11"
NEEDS = "an n-gram feature with both stemming and a common words gazetteer, and a word whose stem is in the gazetteer while the word is not"
BREAKS = "the word is compared with the gazetteer before stemming: it becomes a rare word"
EDITS = [("src/slot_filler/features.rs", "                    if common_words_gazetteer.contains(&stemmed_value) {", "                    if common_words_gazetteer.contains(&normalize(&token.value)) {")]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en", custom={}, gazetteers={"common": ["go"]}, stems={"go": ["going", "goes"]})
    M.slot_filler(path("f"), "en", "i", {}, {}, 1, features=[{"factory_name": "ngram", "offsets": [0], "args": {
        "n": 1, "use_stemming": True, "common_words_gazetteer_name": "common"}}])
    d = Driver()
    d.ok("res_load", h="r", **paths)
    d.ok("sf_load", h="f", path=path("f"), res="r")
    got = d.ok("sf_features", h="f", text="going home")
    return "" if got == [[["ngram_1", "go"]], [["ngram_1", "rare_word"]]] else got
main(body)
'''
