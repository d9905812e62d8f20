#!/usr/bin/env python3
"""MANIFEST.json from checks.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/run/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/run/not_applicable.json"))
checks, out_na = [], []
for p in props:
    i = p["id"]
    if i in conf:
        c = conf[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 run/check.py %s quick" % i,
            "thorough_cmd": "python3 run/check.py %s thorough" % i,
            "technique": "deductive verification (Verus) of functions extracted from /repo on every run, contracts in specs/%s; failed obligations replayed on the compiled crate" % ", ".join(u + ".vs" for u in c["units"]),
            "level": "proof",
            "level_note": c.get("note", "") or "All obligations of the woven functions discharged by Verus/Z3.",
            "theorems": c.get("theorems", []),
        })
    else:
        out_na.append({"property": i, "reason": na.get(i, "no contract within reach yet")})
m = {
    "version": 1,
    "setup_cmd": "bash run/setup.sh",
    "hooks": {
        "guard": "cfg(zok_verif)",
        "enable": "RUSTFLAGS='--cfg zok_verif' ZOK_VERIF_HOOK=/verif/harness/hook/<file>.rs cargo build --offline (harness crate, path dependency on /repo)",
        "source_commits": ["5302e7036618637d0f4549eba1f4d9a594c2bdb3"],
    },
    "checks": checks,
    "not_applicable": out_na,
    "notes": "See DESIGN.md. Known findings: known-findings.txt.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
