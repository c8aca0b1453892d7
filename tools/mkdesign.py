"""DESIGN.md from tools/design_head.md, sa/claims.py, properties.jsonl, the laboratories and the seeds."""
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.claims import CLAIMS, NOT_APPLICABLE  # noqa: E402

props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl") if l.strip()]
lab = {}
for f in sorted(glob.glob(f"{ROOT}/tools/lab/c*.txt")):
    for m in re.finditer(r"^#### (C\d\d) (\S+)", open(f).read(), re.M):
        lab.setdefault(m[1], []).append(m[2])
neutral = sum(len(re.findall(r"^####", open(f).read(), re.M)) for f in glob.glob(f"{ROOT}/tools/lab/neutral*.txt"))
seeds = {}
for d in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    m = json.load(open(d))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m["needs"], m["what_it_breaks"]))
known = [l.strip() for l in open(f"{ROOT}/known_findings.txt") if l.strip() and not l.startswith("#")]
out = [open(f"{ROOT}/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}")
    out.append("")
    if i in CLAIMS:
        out.append(f"*Technique.* {CLAIMS[i]['technique']}.")
        out.append("")
        out.append(f"*What is decided, and bounds.* {CLAIMS[i]['note']}")
        out.append("")
        out.append(f"*Why tests cannot settle it.* {p['why_tests_cant']}")
        out.append("")
        fs = [l for l in known if f"property={i} " in l]
        nf = [l for l in fs if l.startswith("finding")]
        xs = [re.search(r"property=\S+ (\w{7})", l)[1] for l in fs if l.startswith("fixed")]
        if xs:
            out.append("*Defects it found that were repaired.* " + ", ".join(xs) + " (see known_findings.txt).")
            out.append("")
        for l in nf:
            out.append("*Known finding.* " + l.split(" | ", 1)[1])
            out.append("")
        s = seeds.get(i, [])
        for n, needs, br in s:
            out.append(f"*Seeded bug* `{n}` (caught): {br}; needs {needs}.")
            out.append("")
        if lab.get(i):
            out.append(f"*Laboratory.* {len(lab[i])} further planted changes in tools/lab: {', '.join(lab[i])}.")
            out.append("")
    else:
        out.append("Not applicable. " + NOT_APPLICABLE.get(i, "not built"))
        out.append("")
tail = open(f"{ROOT}/tools/design_tail.md").read().rstrip().replace("@NEUTRAL@", str(neutral)).replace("@LAB@", str(sum(map(len, lab.values()))))
out.append(tail)
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out) + "\n")
