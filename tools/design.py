#!/usr/bin/env python3-vt
"""Writes DESIGN.md from tools/design_head.md, the contracts, the last evidence, the seeds and the findings."""
import glob
import inspect
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc import concrete  # noqa: E402

ks = concrete.load_contracts()
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
out = [open(HERE + "/tools/design_head.md").read().rstrip(), "", "## 6. Property by property", "",
       "Each line is one contract: what it states (for every input admitted by its preconditions, unless marked *bounded*), and "
       "the functions it is attached to. *replaces* names callees stood in for by a contract or a recording stand-in.", ""]
for p in props:
    ev = {}
    if os.path.exists(HERE + "/evidence/%s.json" % p["id"]):
        ev = json.load(open(HERE + "/evidence/%s.json" % p["id"]))
    cov = ev.get("coverage", {})
    bounded = {b["contract"] for b in cov.get("bounded", [])}
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], ""]
    if cov:
        out += ["Last quick run: %s of %s obligations discharged on %s paths, solver time %s s, wall time %s s." % (
            cov.get("discharged"), cov.get("obligations"), cov.get("paths"), cov.get("solver_s"),
            ev.get("wall_s", ev.get("wall_time_s", "?"))), ""]
    for k in ks:
        if p["id"] not in ([k.prop] if isinstance(k.prop, str) else k.prop):
            continue
        src = inspect.getsource(k.fn)
        rep = re.findall(r"c\.(?:cut|replace)\(\s*(?:\w+ \+ )?\"([^\"]+)\"", src)
        doc = " ".join((k.fn.__doc__ or "").split())
        ts = [t.split(":")[-1] for t in ([k.targets] if isinstance(k.targets, str) else k.targets)]
        out.append("- `%s`%s: %s. On %s.%s" % (k.name, " (*bounded*: generated inputs on the real code only)" if k.name in bounded
                                              else "", doc.rstrip("."), ", ".join("`%s`" % t for t in ts),
                                              " *replaces* %s." % ", ".join("`%s`" % r.split(":")[-1] for r in rep) if rep else ""))
    out.append("")
out += ["## 7. Planted bugs and what catches them", "",
        "Each is a patch with a demonstration under `seeded/`; 'caught' is the outcome of the quick check of its property.", "",
        "| id | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
caught = json.load(open(HERE + "/tools/caught.json"))
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[-2]
    cl = lambda s: " ".join(str(s).split()).replace("|", "/")
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], cl(m["what_it_breaks"]), cl(m["needs"]), caught.get(i, "not tried")))
out += ["", "## 8. Defects found in improver and repaired", "",
        "Every entry was shown on the real code before the repair, is one `fix:` commit in /repo, and is listed in "
        "`known_findings.json` (fixed entries suppress nothing).  There are no open findings.", ""]
for f in json.load(open(HERE + "/known_findings.json"))["findings"]:
    out.append("- " + f["what"] + " (contract `%s`)" % f["contract"])
out += ["", open(HERE + "/tools/design_tail.md").read().rstrip(), ""]
open(HERE + "/DESIGN.md", "w").write("\n".join(out))
