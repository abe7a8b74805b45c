"""DESIGN.md from tools/design.in.md, props.py and seeded/*/meta.json."""
import glob, json, os, textwrap
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.in.md").read()
T = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    T[d["id"]] = d
w = lambda s, i="": textwrap.fill(s, 118, initial_indent=i, subsequent_indent="  " if i else "")
out = []
for p in sorted(PROPS):
    s = PROPS[p]
    out.append("### %s %s\n" % (p, T[p]["title"]))
    out.append("Level `%s`. %s Search: %s.\n" % (s["level"], "; ".join("unit `%s`, functions `%s`" % u for u in s["units"]) or "no unit", ", ".join(s["searches"])))
    out.append(w(s["explanation"]) + "\n")
    if s["assumptions"]:
        out.append("Assumed:\n" + "\n".join(w(a, "* ") for a in s["assumptions"]) + "\n")
    if s.get("design"):
        out.append(w(s["design"]) + "\n")
for p, r in NOT_APPLICABLE.items():
    out.append("### %s: not applicable: %s\n" % (p, r))
t = t.replace("@@PROPS@@", "\n".join(out))
rows = ["| id | property | what it breaks | needs | found by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["what_it_breaks"], d["needs"], d.get("caught_by", "")))
t = t.replace("@@BUGS@@", "\n".join(rows))
u = open(V + "/tools/design.units.md").read() if os.path.exists(V + "/tools/design.units.md") else ""
t = t.replace("@@UNITS@@", u.strip())
open(V + "/DESIGN.md", "w").write(t)
