#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, tools/design_props.md, the catch table in
tools/caught.tsv and (appendix) the bounds in the evidence of the last quick runs."""
import glob, json, os
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
T = os.path.join(ROOT, "tools")
o = [open(f"{T}/design_head.md").read().rstrip(), "", open(f"{T}/design_props.md").read().rstrip(), ""]
o += ["## 7. Planted bugs and what catches them", "",
 "Each was written from a property's text and the code, confirmed in a scratch copy (compiles, passes the 119 tests, its",
 "demonstration fails with it and passes without it: `tools/plant.py`) and kept whether or not it was caught. `tools/run_seeded.sh`",
 "applies each to /repo, runs the check of its property and undoes it. Scenario = the one that reported it.", "",
 "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = dict(l.rstrip("\n").split("\t", 1) for l in open(f"{T}/caught.tsv")) if os.path.exists(f"{T}/caught.tsv") else {}
for d in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    o.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')} | {caught.get(i, 'not run')} |")
o += ["", "Misses that led to stronger checks while the machinery grew: counters of 8, 16 and 32 bits (long histories, 2^32 lengths),",
 "conditions on inner states (states computed backwards), results that depend on earlier look-alike calls (catalogue of C19), racy",
 "initialisation (scheduling points inside the code), very long labels, lines, lengths and exponents, corruption of the OAEP data block before masking.", "",
 "**Quiet rewrites.** `tools/run_quiet.sh` applies behaviour-preserving rewrites (`tools/quiet/q1.diff`, `q2.diff`: helpers extracted,",
 "loops rewritten, statements reordered, lock-protected caches, lazily built tables, other error texts, other internal representations) and runs all checks: all quiet.", ""]
o += ["## Appendix: scenarios and bounds of the quick tier", "", "Generated from the evidence files.", ""]
for f in sorted(glob.glob(f"{ROOT}/evidence/C*.json")):
    e = json.load(open(f))
    o += [f"**{e['property']}** ({e['coverage']['states']} states, {e['coverage']['transitions']} transitions)", ""]
    for s in e["coverage"]["scenarios"]:
        o.append(f"* `{s['scenario']}` — {s['bounds']} ({s['executions']} executions)")
    o.append("")
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(o))
