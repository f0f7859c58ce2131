#!/usr/bin/env python3
"""mkbug.py SPEC.py: write /verif/seeded/<id>/ from a spec of edits and a demo (development tool)."""
import json, pathlib, shutil, subprocess, sys, tempfile

spec = {}
exec(pathlib.Path(sys.argv[1]).read_text(), spec)
only = sys.argv[2:]
for bid, b in spec["BUGS"].items():
    if only and bid not in only:
        continue
    d = pathlib.Path("/verif/seeded") / bid
    d.mkdir(parents=True, exist_ok=True)
    w = pathlib.Path(tempfile.mkdtemp(prefix="mkbug."))
    shutil.copytree("/repo/src", w / "a" / "src")
    shutil.copytree("/repo/src", w / "b" / "src")
    for f, old, new in b["edits"]:
        p = w / "b" / "src" / "pycba" / f
        s = p.read_text()
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        p.write_text(s.replace(old, new))
    r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, capture_output=True, text=True)
    diff = r.stdout.replace(" a/src", " a/src")
    lines = []
    for l in diff.splitlines():
        lines.append(l)
    (d / "patch.diff").write_text("\n".join(lines) + "\n")
    (d / "demo.py").write_text("import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\nos.environ.setdefault('MPLBACKEND', 'Agg')\nimport warnings\nwarnings.filterwarnings('ignore')\nimport numpy as np\nimport pycba as cba\n" + b["demo"].strip() + "\n")
    (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, indent=1) + "\n")
    shutil.rmtree(w)
    print(bid)
