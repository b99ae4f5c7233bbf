"""writes MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in ps:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i, evidence_file="evidence/%s.json" % i,
                       technique="TLA+ specification (spec/Sia.tla) checked with TLC; behaviours generated from it and seeded random ones are replayed into the code, and every recorded trace is validated against it by TLC",
                       level="model_checking",
                       level_note="TLC explores the bounded models exhaustively and decides every observed call of the real code (unoptimized, optimized, and with concurrent sessions) against the specification; "
                                  "assurance for the code is for the executions explored. Trusted: the specification, TLC, the hash/signature overrides, the harness's mapping between abstract and Rust values."))
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=[],
         notes="No hooks: every observation goes through the crate's public interface. See DESIGN.md; defects repaired are in known-findings.txt.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
