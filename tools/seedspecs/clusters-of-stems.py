ID = 'clusters-of-stems'
PROPERTY = 'C25'
NEEDS = 'a classifier with word clusters and stemming, and a word of the text which is not its own stem'
BREAKS = 'the clusters are looked up for the stems instead of the words'
EDITS = [('src/intent_classifier/featurizer.rs', '            .map(|clusterer| get_word_clusters(&tokens, clusterer))', '            .map(|clusterer| get_word_clusters(&normalized_tokens, clusterer))')]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en", stems={"light": ["lights"]}, clusters={"c": {"lights": "c1", "light": "c2"}})
    M.classifier(path("c"), "en", ["a", None], [0.0], [[0.0, 0.0]], vocab={"c1": 0, "c2": 1}, tfidf_config={"use_stemming": True, "word_clusters_name": "c"})
    d = Driver()
    d.ok("res_load", h="r", **paths)
    d.ok("clf_load", h="c", path=path("c"), res="r")
    r = d.ok("clf_features", h="c", text="lights")
    return "" if [round(x, 3) for x in r] == [1.0, 0.0] else r
main(body)
'''
