#!/usr/bin/env python3
"""seednew.py ID PROPERTY FILE OLD NEW NEEDS BREAKS < demo.py : writes seeded/ID (patch made in a scratch copy)"""
import sys, os, json, subprocess, tempfile, shutil
def make(i, prop, edits, needs, breaks, demo):
    S = f"/verif/seeded/{i}"; os.makedirs(S, exist_ok=True)
    diffs = ""
    d = tempfile.mkdtemp(dir="/tmp")
    for f in sorted({e[0] for e in edits}):
        src = open(f"/repo/{f}").read(); new = src
        for g, old, rep in edits:
            if g == f:
                assert new.count(old) == 1, (f, old, new.count(old))
                new = new.replace(old, rep)
        a, b = f"{d}/a", f"{d}/b"
        open(a, "w").write(src); open(b, "w").write(new)
        p = subprocess.run(["diff", "-u", "--label", f"a/{f}", "--label", f"b/{f}", a, b], capture_output=True, text=True).stdout
        diffs += f"diff --git a/{f} b/{f}\n" + p
    shutil.rmtree(d)
    open(f"{S}/patch.diff", "w").write(diffs)
    open(f"{S}/demo.py", "w").write(demo.lstrip())
    open(f"{S}/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{S}/meta.json", "w"), indent=1)
