ID = 'injection-into-nearly-same-name'
PROPERTY = 'C22'
NEEDS = 'an injection into an entity of the data set that has no parser, while one whose name has other letter cases has a parser'
BREAKS = 'the values are injected into the other entity instead of being refused'
EDITS = [('src/injection/injection.rs', '                    .parsers_metadata\n                    .iter()\n                    .find(|metadata| metadata.entity_identifier == *entity)\n                    .map(|metadata| EntityParserLocation {\n                        gazetteer_parser_dir: custom_parser_info', '                    .parsers_metadata\n                    .iter()\n                    .find(|metadata| metadata.entity_identifier.eq_ignore_ascii_case(entity))\n                    .map(|metadata| EntityParserLocation {\n                        gazetteer_parser_dir: custom_parser_info')]
DEMO = '''
from kit import *
def body():
    M.engine(path("e"), "en", {"a": {"s": "Thing"}}, {"thing": True, "Thing": True}, [("p", lambda p: M.lookup(p, "en", [("turn on", "a", [])],
        [{"intent_group": ["a"], "entity_scope": {"builtin": [], "custom": []}}]))],
        res=dict(custom={"thing": [("one", "one")]}))
    d = Driver()
    r = d.call("inject", path=path("e"), vanilla=False, values=[["Thing", "lights"]])
    return "" if r["r"] == "err" and "'Thing'" in str(r) else r
main(body)
'''
