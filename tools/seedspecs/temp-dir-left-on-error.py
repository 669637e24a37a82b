ID = 'temp-dir-left-on-error'
PROPERTY = 'C20'
NEEDS = 'an archive that holds an engine which does not load'
BREAKS = 'the temporary directory is left behind when loading fails'
EDITS = [('src/nlu_engine.rs', '        let temp_dir_path = temp_dir.path();\n        let engine_dir_path = extract_nlu_engine_zip_archive(reader, temp_dir_path)?;\n        Ok(SnipsNluEngine::from_path(engine_dir_path)?)', '        let temp_dir_path = temp_dir.into_path();\n        let engine_dir_path = extract_nlu_engine_zip_archive(reader, &temp_dir_path)?;\n        let engine = SnipsNluEngine::from_path(engine_dir_path)?;\n        fs::remove_dir_all(&temp_dir_path)?;\n        Ok(engine)')]
DEMO = '''
from kit import *
import zipfile
def body():
    os.makedirs(path("t"))
    with zipfile.ZipFile(path("z.zip"), "w") as z:
        z.writestr("m/nlu_engine.json", "{}")
    d = Driver(env={"TMPDIR": path("t")})
    r = d.call("engine_zip", h="z", path=path("z.zip"))
    assert r["r"] == "err", r
    return os.listdir(path("t"))
main(body)
'''
