#!/opt/venv/bin/python
"""Writes UNITS.md: every contract unit, what it states, how it is decided and the functions under contract."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("MPLBACKEND", "Agg")
import warnings
warnings.simplefilter("ignore")
for f in sorted(glob.glob(os.path.join(HERE, "contracts", "c[0-9]*_*.py"))):
    importlib.import_module("contracts." + os.path.basename(f)[:-3])
from engine.contract import UNITS
titles = {p["id"]: p["title"] for p in map(json.loads, open(os.path.join(HERE, "properties.jsonl")))}
out = ["# Contract units", "", "Generated by tools/mkunits.py. *deductive*: all sizes, entries and paths; *deductive, bounded*: symbolic entries but a stated bound (not counted as proved); *concrete*: the same or a companion contract on random inputs of the real code (falsification, replay; bounded).", ""]
for p in sorted(UNITS):
    out += [f"## {p} {titles.get(p, '')}", ""]
    for u in UNITS[p]:
        how = []
        if u.sym:
            how.append("deductive, bounded (" + u.bounded + ")" if u.bounded else "deductive")
        if u.con:
            how.append(f"concrete ({u.cases} cases" + (f"; {u.bounded}" if u.bounded and not u.sym else "") + ")")
        doc = " ".join((u.fn.__doc__ or "").split())
        out += [f"- **{u.name}** — {', '.join(how)}. {doc}  ", f"  functions: {', '.join(u.funcs)}"]
    out.append("")
open(os.path.join(HERE, "UNITS.md"), "w").write("\n".join(out))
print(sum(len(v) for v in UNITS.values()), "units,", len({f for v in UNITS.values() for u in v for f in u.funcs}), "functions;", sum(u.sym and not u.bounded for v in UNITS.values() for u in v), "deductive units on", len({f for v in UNITS.values() for u in v if u.sym and not u.bounded for f in u.funcs}), "functions")
