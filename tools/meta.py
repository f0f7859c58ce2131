#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known_findings.json from one table."""
import json
import pathlib
import subprocess
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
S = "src/pycba/"
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, observe=None, state=None, technique=None):
    anchors = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        anchors["observe_at"] = observe
    if state:
        anchors["state"] = state
    P.append(({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": anchors,
    }, level_note, technique or "property-based testing (sharded Hypothesis): " + ORACLE.get(id, "generated inputs against an explicit oracle")))


ORACLE = {}
exec((ROOT / "tools" / "table.py").read_text())

P.sort(key=lambda t: t[0]["id"])
ids = [p[0]["id"] for p in P]
assert len(set(ids)) == len(ids)
for p, _, _ in P:
    assert len(p["title"]) <= 80, p["title"]
    assert (ROOT / "checks" / (p["id"].lower() + ".py")).exists(), p["id"]
    for f in p["anchors"]["files"]:
        assert (pathlib.Path("/repo") / f).exists(), f
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n, p["statement"])
(ROOT / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p, _, _ in P))
man = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 run.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p['id']}",
            "technique": tech,
            "level": "exploration",
            "level_note": note,
        }
        for p, note, tech in P
    ],
    "not_applicable": [],
    "notes": "Pure-Python code under test: the checks import /repo/src directly (no build, no hooks). See DESIGN.md.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
hashes = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
fixed = []
for subject, (pid, what) in FIXED.items():
    assert subject in hashes, subject
    fixed.append(f"fixed: property={pid} {hashes[subject]} {what}")
missing = [s for s in hashes if s.startswith("fix:") and s not in FIXED]
assert not missing, missing
(ROOT / "known_findings.json").write_text(json.dumps({"findings": FINDINGS, "fixed": fixed}, indent=1) + "\n")
print(len(P), "properties;", len(fixed), "fixed;", len(FINDINGS), "findings")
