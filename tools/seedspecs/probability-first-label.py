ID = 'probability-first-label'
PROPERTY = 'C29'
NEEDS = 'a tagger that knows the outside tag without having it first, and a tag it never saw'
BREAKS = 'the unseen tag is replaced by the first tag of the tagger instead of the outside tag'
EDITS = [('src/slot_filler/crf_utils.rs', '    if labels.contains(&OUTSIDE) {\n        OUTSIDE', '    if labels.first() == Some(&OUTSIDE) {\n        OUTSIDE')]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en")
    M.slot_filler(path("s"), "en", "a", {"x": "ex"}, {"tea": "B-x"}, labels=["B-x", "O"])
    d = Driver()
    d.ok("res_load", h="r", **paths)
    d.ok("sf_load", h="s", path=path("s"), res="r")
    a, b = [d.ok("sf_prob", h="s", text="some tea", tags=["O", t]) for t in ("B-never", "O")]
    return "" if a == b else (a, b)
main(body)
'''
