#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
T = {
 "default": "explicit-state exhaustive enumeration of inputs on the real code, compared with a reference model",
 "C02": "explicit-state search of the receiver (delivered, consumed) state space and exhaustive segmentation on the real code",
 "C12": "exhaustive enumeration of packets and buffer states on the real code, compared with a reference model",
 "C13": "exhaustive enumeration of bad packets and of histories of good and failing writes on the real code",
 "C21": "exhaustive enumeration of call histories on the real code, compared with a reference model",
 "C24": "exhaustive enumeration of builder call sequences on the real code, compared with a reference model",
 "C23": "exhaustive enumeration of buffers on the real code under an allocation meter",
}
NOTE = ("Every member of the bounded spaces that DESIGN.md states for {id} is executed on the crate built from the working tree; "
 "nothing is sampled. Trusts the reference model (written from the OASIS texts, no code shared), the harness and rustc; "
 "values outside the stated bounds are not covered.")
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "checks": [{
   "property": i,
   "quick_cmd": "./check.sh %s quick" % i,
   "thorough_cmd": "./check.sh %s thorough" % i,
   "technique": "model checking: " + T.get(i, T["default"]),
   "level": "model_checking",
   "level_note": NOTE.format(id=i),
 } for i in ids],
 "not_applicable": [],
 "notes": "No hooks in /repo: everything observed is public API, the caller's buffer, the allocator and the process's output. Defects found and repaired: known_findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
