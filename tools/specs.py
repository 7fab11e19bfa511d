#!/usr/bin/env python3
"""Source of checks.json and MANIFEST.json (run: python3 tools/specs.py)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
def test(pkg, name, quick, shards=4, **kw):
    return dict(pkg=pkg, name=name, quick=quick, shards=shards, **kw)
def check(id, technique, note, *tests, **kw):
    S[id] = dict(technique=technique, note=note, tests=list(tests), **kw)

check("T01", "stateful model-based generation (rapid) against a map model and an independently computed root",
      "Generated histories over prefix-sharing key pools; trusts SHA-256 and the 60-line reference definition of the tree; storage is an in-memory node table.",
      test("smt", "TestT01Model", 6000, 6), test("smt", "TestT01Large", 20, 2), test("smt", "TestT01LastBit", 20, 1, thorough=200, tshards=1))
check("T02", "property-based generation; produced proofs judged by the client verifier and an independent verifier",
      "Every present key and many absent neighbours of generated trees; trusts the reference verifier and root definition.",
      test("smt", "TestT02Proofs", 4000, 8))
check("T03", "adversarial proof mutation and replay (rapid) against the known content; accepted false claims are violations",
      "Covers about 30 families of mutations on generated trees for the plain, compressed and domain-level verifiers; not a cryptographic proof.",
      test("smt", "TestT03Soundness", 8000, 5), test("smt", "TestT03Ambiguity", 150, 3))
check("T04", "stateful generation of update/commit/reopen histories compared with a tree that never closed and a map model",
      "In-memory node table with the semantics of the SQL one (which M04 exercises); all cache depths sampled.",
      test("smt", "TestT04Reload", 5000, 8))
check("T05", "fault injection into generated histories: the n-th storage call fails; answers compared with a map model",
      "Faults are errors returned by the storage (before effect) and missing nodes; positions and repetition sampled per history.",
      test("smt", "TestT05Faults", 8000, 8), level="fault_enumeration")

exec(open(f"{root}/tools/specs_more.py").read()) if os.path.exists(f"{root}/tools/specs_more.py") else None

if __name__ == "__main__":
    props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
    json.dump({k: {a: b for a, b in v.items() if a not in ("technique", "note")} for k, v in S.items()}, open(f"{root}/checks.json", "w"), indent=1)
    checks, na = [], []
    for p in props:
        s = S.get(p["id"])
        if s is None:
            na.append({"property": p["id"], "reason": "no check yet (see DESIGN.md)"})
            continue
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                       "technique": s["technique"], "level": s.get("level", "exploration"), "level_note": s["note"]})
    assert set(S) <= {p["id"] for p in props}
    json.dump({"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": na}, open(f"{root}/MANIFEST.json", "w"), indent=1)
    print(len(checks), "checks,", len(na), "not claimed")
