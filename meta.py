"""Single source for properties.jsonl and MANIFEST.json:  python3 meta.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=None, claimed=True, reason=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state, claimed=claimed, reason=reason))


exec(open(os.path.join(HERE, "meta_props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
        assert len(p["title"]) <= 80, (p["pid"], len(p["title"]))

checks, na = [], []
for p in P:
    if p["claimed"] and os.path.exists(os.path.join(HERE, "checks", p["pid"].lower() + ".py")):
        checks.append({"property": p["pid"], "quick_cmd": f"VERIF_TIER=quick ./check {p['pid']}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./check {p['pid']}",
                       "evidence_file": f"evidence/{p['pid']}.json", "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["pid"], "reason": p["reason"] or "no check yet (work in progress)"})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "hooks": {"guard": "none", "enable": "no hooks were needed in /repo: the monitors wrap the public API from /verif (sys.path import of /repo's working tree)", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Runtime monitoring of the real library under generated workloads; oracles are independent float64 reference models and metamorphic trace properties. ./check <ID> honours VERIF_SEED/VERIF_TIER; ./check <ID> --replay <file> re-runs a violation; ./check <ID> --only <scenario>."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
