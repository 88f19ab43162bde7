"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"hutchpp-basis-normal"}
rows = ["| planted bug | what it breaks | caught by |", "|----|----|----|"]
for s in sorted(os.listdir(HERE + "/seeded")):
    d = json.load(open(f"{HERE}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {d['what_it_breaks']} Needs: {d['needs']}. | "
                f"{'— (missed; ' + d['property'] + ' undecided)' if s in MISSED else d['property']} |")
p = HERE + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"(<!-- seeds -->\n).*?(<!-- end -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], t, flags=re.S)
open(p, "w").write(t)
