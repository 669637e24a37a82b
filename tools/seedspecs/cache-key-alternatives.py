ID = "cache-key-alternatives"
PROPERTY = "C16"
NEEDS = "the same text asked twice of one engine with two different numbers of slot alternatives, both above zero"
BREAKS = "the second call gets the number of alternatives of the first"
EDITS = [("src/entity_parser/custom_entity_parser.rs", """            kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
            max_alternative_resolved_values,
        };""", """            kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
            max_alternative_resolved_values: max_alternative_resolved_values.min(1),
        };""")]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en", custom={"city": [("paris", "Paris"), ("paris", "Paris, Texas"), ("paris", "Parigi"), ("paris", "Lutece")]})
    d = Driver()
    d.ok("res_load", h="r", **paths)
    d.ok("res_load", h="f", **paths)
    d.ok("custom", h="r", text="to paris", kinds=["city"], sa=1)
    a = d.ok("custom", h="r", text="to paris", kinds=["city"], sa=3)
    b = d.ok("custom", h="f", text="to paris", kinds=["city"], sa=3)
    return "" if a == b else (a, b)
main(body)
'''
