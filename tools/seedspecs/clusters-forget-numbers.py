ID = 'clusters-forget-numbers'
PROPERTY = 'C26'
NEEDS = 'a file of word clusters that begins with numbers and goes on with names'
BREAKS = 'the words before the first name have no cluster'
EDITS = [('src/resources/word_clusterer.rs', '                        for (hash, value) in u16_values.iter() {\n                            str_values.insert(*hash, format!("{}", value));\n                        }\n                        str_values.insert', '                        str_values.insert')]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en", clusters={"c": {"tea": "12", "coffee": "drink"}})
    d = Driver()
    d.ok("res_load", h="r", **paths)
    r = d.ok("res_query", h="r", words=["tea", "coffee"])["clusterers"][0]["clusters"]
    return "" if r == ["12", "drink"] else r
main(body)
'''
