ID = 'feature-declared-twice'
PROPERTY = 'C12'
NEEDS = 'a slot filler whose model declares a feature of one name in two places, with other offsets'
BREAKS = 'the offsets of the second declaration are lost'
EDITS = [('src/slot_filler/feature_processor.rs', '            .flat_map(|fs| fs)\n            .collect();\n\n        Ok(Prob', '            .flat_map(|fs| fs)\n            .fold(vec![], |mut kept: Vec<FeatureOffsetter>, offsetter| {\n                let name = offsetter.feature.name();\n                if kept.iter().all(|other| other.feature.name() != name) {\n                    kept.push(offsetter);\n                }\n                kept\n            });\n\n        Ok(Prob')]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en")
    d = Driver()
    d.ok("res_load", h="r", **paths)
    ngram = lambda o: {"factory_name": "ngram", "offsets": o, "args": {"n": 1, "use_stemming": False, "common_words_gazetteer_name": None}}
    M.slot_filler(path("sf"), features=[ngram([0]), {"factory_name": "is_first", "offsets": [0], "args": {}}, ngram([-1])])
    d.ok("sf_load", h="s", path=path("sf"), res="r")
    r = d.ok("sf_features", h="s", text="turn on")
    return "" if "ngram_1[-1]" in str(r) else r
main(body)
'''
