"""The source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None, note="", theorems=(), na=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state], "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}, "_note": note, "_theorems": list(theorems), "_na": na})

exec(open(os.path.join(V, "tools", "props_data.py")).read())

TRUST = " Trusted: Verus and Z3, the contracts of std operations in contracts/prelude.vrs, the mechanical extraction (DESIGN.md). A bounded search on the real crates runs beside the proof, is labelled bounded, and is what replays a failed obligation."
props, checks, na = [], [], []
for p in P:
    q = {k: v for k, v in p.items() if not k.startswith("_")}
    props.append(q)
    if p["_na"]:
        na.append({"property": p["id"], "reason": p["_na"]})
        continue
    c = {"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
         "technique": "contract-based deductive verification (Verus/Z3) of the functions extracted from /repo on every run; failed obligations replayed by a bounded search on the real crates",
         "level": "proof", "level_note": p["_note"] + TRUST}
    if p["_theorems"]:
        c["theorems"] = p["_theorems"]
    checks.append(c)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in props:
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. tools/props.py generates this file and properties.jsonl."}
m.update(MANIFEST_EXTRA)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
