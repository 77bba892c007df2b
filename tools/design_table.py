#!/usr/bin/env python3
"""Writes COVERAGE.md: every exploration of every check with its bound, scenario count and time, from the
evidence directories of a quick and a thorough run.  design_table.py QUICK_DIR THOROUGH_DIR"""
import json, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
def load(d, i):
    try:
        return json.load(open(os.path.join(d, i + ".json")))
    except (OSError, ValueError, TypeError):
        return None
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
out = ["# Coverage", "", "Written by `tools/design_table.py` from evidence files. Scenarios are executions on the real code",
       "whose outcome was compared with the model; `dev` is the deviation bound (0: complete product).", ""]
for i in ids:
    for tier, d in (("quick", sys.argv[1]), ("thorough", sys.argv[2])):
        e = load(d, i)
        if not e or e["tier"] != tier:
            continue
        c = e["coverage"]
        out += [f"## {i} {tier}: {c['traces_validated_against_impl']:,} scenarios, {c['transitions']:,} calls, {e['wall_s']:.1f} s", "",
                "| exploration | dev | scenarios |", "|---|---|---|"]
        out += [f"| {x['exploration']} | {x['deviation_bound']} | {x['scenarios']:,} |" for x in c["explorations"]]
        out.append("")
open(os.path.join(here, "COVERAGE.md"), "w").write("\n".join(out))
