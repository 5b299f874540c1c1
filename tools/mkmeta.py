#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U, A, B, S = "base/src/utils.rs", "base/src/algorithms.rs", "base/src/board.rs", "base/src/safe_board.rs"
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["return values of the public functions"],
                               hook_needed=None, **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {})),
                  technique=technique, note=note))

exec(open(os.path.join(ROOT, "tools", "properties.py"), encoding="utf-8").read())

with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
claimed = [p for p in P if p["technique"]]
m = dict(version=1, setup_cmd="./setup.sh",
         checks=[dict(property=p["id"], quick_cmd=f"./run.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id']}",
                      evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["note"]) for p in claimed],
         not_applicable=[dict(property=p["id"], reason=p["note"]) for p in P if not p["technique"]],
         notes="All checks share one harness crate (harness/) that links the library from /repo/base by path; run.sh rebuilds it by content hash. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(claimed), "claimed")
