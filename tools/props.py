"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing."""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
PROPS = []
LEVEL = {}
TECH = {}
NOTE = {}


def prop(id, title, statement, over, qtext, why, files, mech, *, tech, note, level="exploration", state=None, observe=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None},
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement)
    PROPS.append(d)
    LEVEL[id], TECH[id], NOTE[id] = level, tech, note


exec(compile((HERE / "tools" / "props_data.py").read_text(), "props_data.py", "exec"))


def main():
    with open(HERE / "properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in PROPS:
        i = p["id"]
        if not (HERE / "checks" / f"{i}.py").exists():
            print("no check for", i)
            continue
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh {i} quick",
            "thorough_cmd": f"bash run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[i], "level": LEVEL[i], "level_note": NOTE[i],
        })
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE,
           "notes": "No hooks in /repo: every monitor attaches from outside (public API wrappers, sys.audit, forked children)."}
    (HERE / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


if __name__ == "__main__":
    main()
