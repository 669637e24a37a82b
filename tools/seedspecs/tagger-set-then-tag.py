ID = "tagger-lock-released-before-decoding"
PROPERTY = "C17"
NEEDS = "two threads at once on one engine, one computing the probability of tags while the other tags a text with the same slot filler"
BREAKS = "the tagger is given the features by one thread and read by the other: the probability is that of another text"
EDITS = [("src/slot_filler/crf_slot_filler.rs", """            tagger.set(&features)?;
            Ok(tagger.probability(&cleaned_tags)?)
        } else {""", """            tagger.set(&features)?;
            drop(tagger);
            Ok(self
                .tagger
                .as_ref()
                .unwrap()
                .lock()
                .map_err(|e| format_err!("poisonous mutex: {}", e))?
                .probability(&cleaned_tags)?)
        } else {""")]
DEMO = '''
from kit import *
def body():
    paths = M.resources(path("r"), "en", custom={})
    M.slot_filler(path("f"), "en", "i", {"a": "city"}, {"go": "B-a", "one": "I-a"}, 1, script={"set_sleep_us": 500})
    d = Driver(one_cpu=True)
    d.ok("res_load", h="r", **paths)
    d.ok("sf_load", h="f", path=path("f"), res="r")
    one = dict(op="sf_prob", h="f", text="go one", lang="en", tags=["B-a", "I-a"])
    two = dict(op="sf_prob", h="f", text="x y", lang="en", tags=["O", "O"])
    alone = [d.ok(**one), d.ok(**two)]
    for _ in range(60):
        r = d.call("threads", threads=[[one] * 6, [two] * 6, [one, two] * 3, [two, one] * 3])
        if r["r"] != "ok":
            return r
        for l, want in zip(r["v"], ([alone[0]] * 6, [alone[1]] * 6, alone * 3, alone[::-1] * 3)):
            got = [x.get("v") for x in l]
            if got != want:
                return (got, want)
        if d.ok("overlap"):
            return "overlap"
main(body)
'''
