"""Writes the table of section 7 of DESIGN.md from a log of try_seeded.py.

usage: gen_table.py LOG [LOG ...]     (a later line about the same bug and check counts)
"""
import json, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for path in sys.argv[1:]:
    for line in open(path):
        m = re.match(r"(C\d\d-\S+)\s+(C\d\d) rc=(\d)", line)
        if m:
            caught.setdefault(m[1], {})[m[2]] = m[3] == "1"
rows = ["| change | needs | caught by |", "|---|---|---|"]
for bug in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", bug, "meta.json")))
    by = [p for p, c in sorted(caught.get(bug, {}).items()) if c]
    rows.append("| %s | %s | %s |" % (bug, meta["needs"].strip(), ", ".join(by) or "none"))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
head, _, rest = text.partition("<!-- table -->")
tail = rest.partition("<!-- end -->")[2]
open(path, "w").write(head + "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->" + tail)
