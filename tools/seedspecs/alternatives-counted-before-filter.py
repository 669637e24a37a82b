ID = 'alternatives-counted-before-filter'
PROPERTY = 'C04'
NEEDS = 'a parse with a whitelist that asks for fewer alternatives than there are intents, a forbidden intent having a better score than an allowed one'
BREAKS = 'fewer alternatives than asked although more are allowed'
EDITS = [('src/nlu_engine.rs', '            .get_intents(input)?\n            .into_iter()\n            .filter(|res| {', '            .get_intents(input)?\n            .into_iter()\n            .filter(|res| res.intent_name != parsing_result.intent.intent_name)\n            .take(intents_alternatives)\n            .filter(|res| {'), ('src/nlu_engine.rs', '            // We do not duplicate the top result in the list of alternatives\n            .filter(|res| res.intent_name != parsing_result.intent.intent_name)\n            .take(intents_alternatives)\n', '')]
DEMO = '''
from kit import *
def body():
    M.engine(path("e"), "en", {"a": {}, "b": {}, "c": {}}, {}, [
        ("q", lambda p: M.probabilistic(p, "en", dict(intent_list=["a", "b", "c", None], intercept=[2.0, 1.0, 0.5, -3.0], coeffs=[[0.0]] * 4), {"a": {}, "b": {}, "c": {}}))])
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.ok("parse", h="e", text="hello", wl=["a", "c"], bl=None, ia=1, sa=0)
    names = [r["intent"]["intentName"]] + [x["intent"]["intentName"] for x in r["alternatives"]]
    return "" if names == ["a", "c"] else names
main(body)
'''
