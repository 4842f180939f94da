"""Append the table of planted bugs to DESIGN.md (between the markers)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted -->\n"


def main():
    p = os.path.join(HERE, "DESIGN.md")
    with open(p) as f:
        s = f.read()
    rows = ["| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n"]
    d = os.path.join(HERE, "seeded")
    for i in sorted(os.listdir(d)):
        with open(os.path.join(d, i, "meta.json")) as f:
            m = json.load(f)
        rows.append("| %s | %s | %s | %s |\n" % (
            i, m["property"], m["needs"].replace("|", "/"),
            m["what_it_breaks"].replace("|", "/")))
    with open(p, "w") as f:
        f.write(s.split(MARK)[0] + MARK + "\n" + "".join(rows))


main()
