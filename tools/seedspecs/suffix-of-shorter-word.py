ID = 'suffix-of-shorter-word'
PROPERTY = 'C31'
NEEDS = 'a suffix feature with a size exactly one above the length of a word of the text'
BREAKS = 'computing the features panics (or wraps around)'
EDITS = [('src/slot_filler/features_utils.rs', '    if reverse && chunk_size > chunk_start {', '    if reverse && chunk_size > chunk_start + 1 {')]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en")
    M.slot_filler(path("s"), "en", "a", {}, {}, features=[{"factory_name": "suffix", "offsets": [0], "args": {"suffix_size": 4}}])
    d = Driver()
    d.ok("res_load", h="r", **paths)
    d.ok("sf_load", h="s", path=path("s"), res="r")
    r = d.call("sf_features", h="s", text="the")
    return "" if r["r"] == "ok" else r
main(body)
'''
