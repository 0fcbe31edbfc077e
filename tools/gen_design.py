"Write DESIGN.md: tools/design.txt with the per-property and planted-bug tables filled in."
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.chdir(ROOT)
from checks.registry import PROPS

how = {}
cur = None
for line in open("tools/design_props.txt"):
    if line[:1] == "C" and line[1:3].isdigit():
        cur = line[:3]
        how[cur] = line[4:].strip()
    elif line.strip():
        how[cur] += " " + line.strip()

props = []
for l in open("properties.jsonl"):
    d = json.loads(l)
    p = PROPS[d["id"]]
    common = PROPS["C02"]
    bounds = p.bounds.strip()
    outside = p.outside.strip()
    if d["id"] != "C01":
        bounds = bounds.replace(PROPS["C01"].bounds.strip(), "As for C01.")
        outside = outside.replace(PROPS["C01"].outside.strip(), "As for C01.")
    names = [s.name for s in p.scenarios if s.tier != "thorough"]
    deep = [s.name for s in p.scenarios if s.tier == "thorough"]
    props.append(f"### {d['id']} {d['title']}\n\n{how[d['id']]}\n\n*Bounds:* {bounds}\n"
                 + (f"\n*Outside:* {outside}\n" if outside else "")
                 + f"\n*Scenarios ({len(names)} quick, {len(deep)} more in the thorough tier):* "
                 + ", ".join(names) + ("; thorough: " + ", ".join(deep) if deep else "") + ".\n")

res = {}
if os.path.exists("tools/seeded_results.txt"):
    for l in open("tools/seeded_results.txt"):
        f = l.rstrip("\n").split("\t")
        if len(f) >= 3:
            res[f[0]] = f[1:]
rows = ["| planted bug | property | needs | verdict | first alarm |", "|---|---|---|---|---|"]
for i in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{i}/meta.json"))
    r = res.get(i, ["?", ""])
    rows.append("| " + " | ".join(x.replace("|", "\\|") for x in
                                  (i, m["property"], m["needs"], r[0], r[1])) + " |")
fixed = [l[7:].strip() for l in open("known_findings.txt") if l.startswith("fixed:")]
known = [l[7:].strip() for l in open("known_findings.txt") if l.startswith("known:")]
t = open("tools/design.txt").read()
t = t.replace("@PROPS@", "\n".join(props)).replace("@SEEDS@", "\n".join(rows))
t = t.replace("@FIXED@", "\n".join("* " + x.replace("property=", "", 1) for x in fixed))
t = t.replace("@KNOWN@", "\n".join("* " + x for x in known) or "None: every genuine defect found was repaired.")
t = t.replace("@NFIXED@", str(len(fixed)))
open("DESIGN.md", "w").write(t)
