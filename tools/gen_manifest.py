#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/uses.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
SEQ = "exhaustive enumeration of inputs / operation sequences on the real code"
MC = "stateless model checking of the real code under a controlled scheduler, virtual time and an enumerated environment"
# properties with scenarios that are also explored by the binary with the race detector
RACE = ("C01", "C02", "C09", "C10", "C12", "C13", "C14", "C15", "C17", "C21", "C23", "C25", "C26", "C27", "C28", "C29", "C31")
uses = {}
checks = []
for p in props:
    i = p["id"]
    if i in ("C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C16", "C28", "C33", "C36"):
        u = dict(bins=["vseq"], quick=30, thorough=700)
        tech = SEQ
    elif i in ("C02", "C09", "C15"):
        u = dict(bins=["vseq", "vmc"], quick=50, thorough=700, weights=[1, 1])
        tech = SEQ + "; " + MC
    elif i == "C30":
        u = dict(bins=["race", "vmc"], quick=75, thorough=700, weights=[5, 1])
        tech = MC + ", each execution judged by the race detector (scheduler hand-offs hidden from it)"
    else:
        u = dict(bins=["vmc"], quick=55 if i in ("C01", "C12", "C14", "C17", "C20", "C21", "C23", "C25", "C29", "C31", "C34", "C35") else 35, thorough=700)
        tech = MC
    if i in RACE:
        u["weights"] = [4 * w for w in u.get("weights", [1])] + [sum(u.get("weights", [1]))]
        u["bins"] = u["bins"] + ["race"]
        if MC not in tech:
            tech += "; " + MC
        tech += "; the schedules of its concurrent scenarios again under the race detector (scheduler hand-offs hidden from it)"
    uses[i] = u
    checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique="model checking: " + tech, level="model_checking",
                       level_note="Every execution within the bounds listed in the evidence file runs the code of /repo itself (built with an overlay that "
                       "puts scheduler, clock, map order, pools and third-party edges under control) and is judged by an independent reference; "
                       "bounds that did not complete in time are marked complete=false. Trusted: runtime and fakes in /verif/mc."
                       if u["bins"] != ["vseq"] else
                       "Every case of the spaces listed in the evidence file runs the code of /repo itself and is judged by an independent "
                       "reference. Trusted: the reference in /verif/mc/ref; bounds as listed."))
m = dict(version=1, setup_cmd="./check.sh setup",
         hooks=dict(guard="none in /repo", enable="the checks instrument a copy of /repo's sources into a go build -overlay in a scratch directory "
                    "(mc/cmd/instrument); nothing is committed in /repo for it", source_commits=[]),
         checks=checks, not_applicable=[],
         notes="See DESIGN.md. Genuine defects found are repaired by the fix: commits in /repo, listed in known-findings.txt.")
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
json.dump(uses, open(HERE + "/tools/uses.json", "w"), indent=1)
