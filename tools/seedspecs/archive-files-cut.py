ID = 'archive-files-cut'
PROPERTY = 'C20'
NEEDS = 'an archive one of whose files is larger than 64 KB once extracted'
BREAKS = 'only the beginning of the file is extracted, and a sound archive is refused or read as another model'
EDITS = [('src/utils.rs', '            io::copy(&mut file, &mut outfile)?;', '            io::copy(&mut io::Read::take(&mut file, 65536), &mut outfile)?;')]
DEMO = '''
from kit import *
import zipfile
def body():
    M.engine(path("e"), "en", {"a": {}}, {}, [("p", lambda p: M.lookup(p, "en", [("turn on", "a", [])],
        [{"intent_group": ["a"], "entity_scope": {"builtin": [], "custom": []}}]))])
    with zipfile.ZipFile(path("z.zip"), "w", zipfile.ZIP_DEFLATED) as z:
        for top, _, names in os.walk(path("e")):
            for n in names:
                data = open(os.path.join(top, n), "rb").read()
                z.writestr("m/" + os.path.relpath(os.path.join(top, n), path("e")), (b" " * 70000 if n == "nlu_engine.json" else b"") + data)
    d = Driver()
    d.ok("engine_load", h="e", path=path("e"))
    r = d.call("engine_zip", h="z", path=path("z.zip"))
    return "" if r["r"] == "ok" else r
main(body)
'''
