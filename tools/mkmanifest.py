#!/opt/venv/bin/python
"""Writes MANIFEST.json from the contract modules present."""
import glob, importlib, json, os, re, sys, warnings
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
have = {os.path.basename(f).split("_")[0].upper() for f in glob.glob(os.path.join(HERE, "contracts", "c[0-9]*_*.py"))}
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")
for f in sorted(glob.glob(os.path.join(HERE, "contracts", "c[0-9]*_*.py"))):
    importlib.import_module("contracts." + os.path.basename(f)[:-3])
from engine.contract import UNITS


def note(i):
    us = UNITS[i]
    ded = [u for u in us if u.sym and not u.bounded]
    rest = [u for u in us if not (u.sym and not u.bounded)]
    return (f"Proved for all sizes, entries and paths (exact arithmetic, assumed contracts of numpy/scipy/sklearn as listed in the evidence file): units {', '.join(u.name for u in ded)}. "
            + (f"Bounded, not counted as proved: units {', '.join(u.name for u in rest)} (random inputs of the real code; bounds in UNITS.md). " if rest else "")
            + "Functions per unit in UNITS.md, assumptions in DESIGN.md.")


checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python check.py {i} --tier quick", thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
            technique=n.get("technique", "contracts on the real functions; obligations from executing them on symbolic arrays, discharged by normal form + z3; concrete replay"),
            level=n.get("level", "proof"), level_note=n.get("note", note(i))))
    else:
        na.append(dict(property=i, reason="no contract written yet"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
