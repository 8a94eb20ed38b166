#!/usr/bin/env python3
"""Rewrites the detection table at the end of DESIGN.md from lines "<id> <property> rc=<rc> <secs>s <n>" (argument: file)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for l in open(sys.argv[1]):
    i, p, rc, *_ = l.split()
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    needs = m["needs"].replace("|", "/").replace("\n", " ")
    rows.append((p, i, needs if len(needs) < 130 else needs[:127] + "...", "caught" if rc == "rc=1" else "missed"))
text = open(f"{ROOT}/DESIGN.md").read().split("## 7. Detection table")[0].rstrip()
text += "\n\n## 7. Detection table\n\nQuick tier, `VERIF_SEED=1`, each change against the check of its own property.\n\n"
text += "| check | change | needs | result |\n|---|---|---|---|\n"
text += "".join(f"| {p} | {i} | {n} | {r} |\n" for p, i, n, r in sorted(rows))
open(f"{ROOT}/DESIGN.md", "w").write(text)
