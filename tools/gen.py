#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the catalogue (tools/catalog.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import PROPS, NOT_APPLICABLE  # noqa: E402


def design(props, na):
    out = []
    for p in props:
        pid = p["id"]
        out.append(f"### {pid}: {p['title']}\n")
        if pid in na:
            out.append(f"Not applicable: {na[pid]}\n")
            continue
        out.append(f"*Method*: {p['technique']}.\n")
        if p.get("how"):
            out.append(f"*Decides*: {p['how']}\n")
        out.append(f"*Scope and bounds*: {p['level_note']}.\n")
        out.append(f"*Beyond the tests*: {p['why']}.\n")
    rows = []
    sd = os.path.join(ROOT, "seeded")
    res = {}
    rf = os.path.join(HERE, "seed_results.json")
    if os.path.exists(rf):
        res = json.load(open(rf))
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {res.get(d, '?')} |")
    src = open(os.path.join(HERE, "DESIGN.in.md"), encoding="utf-8").read()
    src = src.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "| change | property | what it breaks | check |\n|---|---|---|---|\n" + "\n".join(rows))
    with open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8") as fh:
        fh.write(src)


def main():
    lines, checks, na = [], [], []
    for p in PROPS:
        pid = p["id"]
        assert len(p["title"]) <= 80, pid
        lines.append(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False))
        if pid in NOT_APPLICABLE:
            na.append({"property": pid, "reason": NOT_APPLICABLE[pid]})
        elif os.path.exists(os.path.join(ROOT, "sa", "props", f"{pid}.py")):
            checks.append({"property": pid, "quick_cmd": f"./check {pid}", "thorough_cmd": f"./check {pid} --thorough",
                           "evidence_file": f"evidence/{pid}.json", "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as fh:
        fh.write("\n".join(lines) + "\n")
    design(PROPS, NOT_APPLICABLE)
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they parse /repo/src/corrct on every run and never import or execute it. No hooks in /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    try:
        import jsonschema
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for ln in lines:
            jsonschema.validate(json.loads(ln), sch)
        jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
        print("schemas ok;", len(checks), "claimed,", len(na), "not applicable")
    except ImportError:
        print("jsonschema not available: run with python3-vt to validate")


main()
