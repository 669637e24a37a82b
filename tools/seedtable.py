"""Prints the table of the planted bugs for DESIGN.md (run by hand)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property and check | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| `%s` | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
table = "\n".join(rows)
path = here + "/DESIGN.md"
text = open(path).read()
start = text.index("All are caught by the check of their property:") + len("All are caught by the check of their property:")
end = text.index("Besides these,")
open(path, "w").write(text[:start] + "\n\n" + table + "\n\n" + text[end:])
