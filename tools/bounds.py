#!/usr/bin/env python3
"""Writes BOUNDS.md from the evidence of the last clean quick runs."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["# Spaces explored by the quick checks", "",
       "Generated by `tools/bounds.py` from `evidence/*.json` of clean runs. Jobs are the units of work of a space; all",
       "of them complete in a clean run. The thorough tier explores the same spaces with deeper bounds.", ""]
for f in sorted(glob.glob(here + "/evidence/C??.json")):
    e = json.load(open(f)); c = e["coverage"]
    if e["violations"] or e["tier"] != "quick" or not c["exhaustive"]:
        raise SystemExit(f"{f}: not a clean quick run")
    n = lambda x: f"{x:,}".replace(",", " ")
    out += [f"## {e['property']}", "",
            f"{n(c['states'])} states, {n(c['transitions'])} transitions, {n(c['traces_validated_against_impl'])} histories re-executed, "
            f"{n(c['comparisons'])} comparisons, {n(c['distinct_outcomes'])} distinct outcomes; all spaces completed.", ""]
    out += [f"* {s['name']} — {n(s['jobs'])} jobs" for s in c["spaces"]]
    out += ["", "Assumptions:", ""] + [f"* {a}" for a in e["assumptions"]] + [""]
open(here + "/BOUNDS.md", "w").write("\n".join(out))
