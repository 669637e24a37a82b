ID = 'version-prefix'
PROPERTY = 'C18'
NEEDS = 'a model whose version only starts with the supported one'
BREAKS = 'the model loads'
EDITS = [('src/nlu_engine.rs', '        if model_version.model_version != crate::MODEL_VERSION {', '        if !model_version.model_version.starts_with(crate::MODEL_VERSION) {')]
DEMO = '''
from kit import *
def body():
    M.engine(path("e"), "en", {"a": {}}, {}, [], version="0.20.0")
    M.engine(path("f"), "en", {"a": {}}, {}, [], version="0.20.01")
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.call("engine_load", h="f", path=path("f"))
    return "" if r["r"] == "err" else r
main(body)
'''
