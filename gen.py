#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (python3 gen.py)."""
import json, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []          # properties
NA = []         # not applicable
def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, observe=observe, hook=hook))
def main():
    from props import fill
    fill(prop, lambda **k: NA.append(k))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]: a["observe_at"] = p["observe"]
            a["hook_needed"] = p["hook"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
    na = {n["property"] for n in NA}
    from props import HOOKS
    m = {"version": 1, "setup_cmd": "./setup.sh"}
    if HOOKS: m["hooks"] = HOOKS
    m["checks"] = [{
        "property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking",
        "level_note": p["note"]} for p in P if p["id"] not in na]
    m["not_applicable"] = NA
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
if __name__ == "__main__":
    sys.path.insert(0, HERE); sys.dont_write_bytecode = True
    main()
