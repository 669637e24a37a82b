ID = 'engines-share-past-answers'
PROPERTY = 'C35'
NEEDS = 'two engines of one process whose values of a same entity differ, the same text asked to both, one after the other'
BREAKS = 'the second engine answers with the entities found by the first one, which it does not have'
EDITS = [('src/entity_parser/custom_entity_parser.rs', '        self.cache\n            .lock()\n            .unwrap()\n            .try_cache(&cache_key, |cache_key| {\n                self._extract_entities(\n                    &cache_key.input,\n                    filter_entity_kinds,\n                    max_alternative_resolved_values,\n                )\n            })\n', '        thread_local! {\n            static CACHE: std::cell::RefCell<Cache<CacheKey, Vec<CustomEntity>>> =\n                std::cell::RefCell::new(Cache::new(1000));\n        }\n        CACHE.with(|cache| {\n            cache.borrow_mut().try_cache(&cache_key, |cache_key| {\n                self._extract_entities(\n                    &cache_key.input,\n                    filter_entity_kinds,\n                    max_alternative_resolved_values,\n                )\n            })\n        })\n')]
DEMO = '''
from kit import *
def body():
    d = Driver()
    got = []
    for h, value in (("e", "red light"), ("f", "blue light")):
        M.engine(path(h), "en", {"a": {"s": "thing"}}, {"thing": True}, [("p", lambda p: M.lookup(p, "en", [("turn on", "a", [])],
            [{"intent_group": ["a"], "entity_scope": {"builtin": [], "custom": []}}]))],
            res=dict(custom={"thing": [(value, value)]}))
        d.ok("engine_load", h=h, path=path(h))
        got.append(d.ok("extract_slot", h=h, text="a red light and a blue light", intent="a", slot="s", sa=0))
    return "" if [x and x["rawValue"] for x in got] == ["red light", "blue light"] else got
main(body)
'''
