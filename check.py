#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--unit NAME] [--sym|--con] [-v]
   check.py --replay FILE

Decides one property: runs its contract units against /repo's current source."""
import os
import sys

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)

import argparse
import importlib
import json
import multiprocessing as mp
import pickle
import time
import traceback

T0 = time.time()


def load(prop):
    import logging

    logging.disable(logging.CRITICAL)
    import pydmd

    assert os.path.realpath(pydmd.__file__).startswith(os.path.realpath(REPO)), pydmd.__file__
    import glob

    from engine import contract

    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "c*.py"))):
        n = os.path.basename(f)[:-3]
        if n.upper().split("_")[0] == prop or prop in ("ALL",):
            importlib.import_module("contracts." + n)
    return contract


def child(conn, kind, u, arg):
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        from engine import contract

        if kind == "sym":
            r = contract.run_sym(u, **arg)
        else:
            r = con_many(contract, u, **arg)
        conn.send(("ok", r))
    except BaseException:
        conn.send(("err", traceback.format_exc()[-3000:]))
    finally:
        conn.close()
        os._exit(0)


def con_many(contract, u, seed, start, n, budget, fixed=None, maxfail=3):
    t0 = time.time()
    res = dict(unit=u.id, ok=0, skip=0, fail=[], samples=[], cases=0, opts=set())
    for i in range(start, start + n):
        if time.time() - t0 > budget:
            break
        st, info = contract.run_con(u, (seed, u.id, i), fixed)
        res["cases"] += 1
        if st == "ok":
            res["ok"] += 1
            res["opts"].add(repr(sorted(info["opts"].items())) + repr(sorted(info["dims"].items())))
            if len(res["samples"]) < 2:
                res["samples"].append(dict(unit=u.id, case=i, **info))
        elif st == "skip":
            res["skip"] += 1
        else:
            info["case"] = i
            res["fail"].append(info)
            if len(res["fail"]) >= maxfail:
                break
    res["wall"] = time.time() - t0
    return res


def run_tasks(tasks, nproc=8):
    """tasks: list of (key, kind, unit, arg, timeout) -> {key: (status, result)}"""
    out = {}
    pend = list(tasks)
    live = []
    ctxm = mp.get_context("fork")
    while pend or live:
        while pend and len(live) < nproc:
            key, kind, u, arg, to = pend.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=child, args=(b, kind, u, arg))
            p.start()
            b.close()
            live.append((key, p, a, time.time() + to))
        nl = []
        for key, p, a, dl in live:
            if a.poll(0):
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = ("err", "process died")
                p.join()
            elif not p.is_alive():
                out[key] = ("err", f"process ended with {p.exitcode}")
            elif time.time() > dl:
                p.kill()
                p.join()
                out[key] = ("timeout", None)
            else:
                nl.append((key, p, a, dl))
        live = nl
        time.sleep(0.01)
    return out


def merge(rs):
    if not rs:
        return None
    bad = [r for r in rs if r[0] != "ok"]
    good = [r[1] for r in rs if r[0] == "ok"]
    if not good:
        return bad[0]
    o = dict(good[0])
    for x in good[1:]:
        for k in ("paths", "aborted", "vacuous", "obligations", "discharged", "nfailed", "queries", "solver_s", "unknown"):
            o[k] += x[k]
        o["wall"] = max(o["wall"], x["wall"])
        for k in ("failed", "undecided", "covers"):
            o[k] = o[k] + x[k]
        for k in ("used", "rules"):
            o[k] = {q: o[k].get(q, 0) + x[k].get(q, 0) for q in {**o[k], **x[k]}}
        o["obls"] = {q: [a + b for a, b in zip(o["obls"].get(q, [0, 0]), x["obls"].get(q, [0, 0]))] for q in {**o["obls"], **x["obls"]}}
    for b in bad:
        o["undecided"] = o["undecided"] + [("process", f"{b[0]}: {b[1]}")]
    return "ok", o


def known_findings():
    p = os.path.join(HERE, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                d = dict(x.split("=", 1) for x in l.split("|")[0][6:].split())
                d["text"] = l.split("|", 1)[1].strip() if "|" in l else ""
                res.append(d)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--unit")
    ap.add_argument("--sym", action="store_true")
    ap.add_argument("--con", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--noev", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop = a.prop
    contract = load(prop)
    units = contract.UNITS.get(prop, [])
    if a.unit:
        units = [u for u in units if a.unit in u.name]
    if not units:
        print("no contract units for", prop)
        return 2
    both = not (a.sym or a.con)
    thorough = a.tier == "thorough"
    mult = (12 if thorough else 1) * a.scale
    tasks = []
    for u in sorted(units, key=lambda u: -u.weight):
        if u.sym and (both or a.sym):
            shards = [{}]
            for nm, cnt in u.split:
                shards = [{**s, nm: j} for s in shards for j in range(cnt)]
            for s in shards:
                tasks.append((("sym", u.id, str(s)), "sym", u, dict(max_paths=4000, budget=u.timeout, shard=s), u.timeout + 60))
    for u in sorted(units, key=lambda u: -u.weight):
        if u.con and (both or a.con):
            n = max(1, int(u.cases * mult))
            chunks = 4 if (n >= 40 and len(units) < 8) else 1
            per = -(-n // chunks)
            for ch in range(chunks):
                tasks.append((("con", u.id, ch), "con", u, dict(seed=a.seed, start=ch * 100000, n=per, budget=400 if thorough else 45), 1200 if thorough else 300))
    res = run_tasks(tasks)

    violations = []  # (unit, obligation, info, replayable)
    errors = []
    ev_units = []
    searches = []
    umap = {u.id: u for u in units}
    tot = dict(obl=0, dis=0, q=0, ss=0.0, cases=0, ok=0, distinct=0, paths=0)
    used = {}
    samples = []
    und = []
    for u in units:
        e = dict(unit=u.id, functions=u.funcs, bounded=u.bounded, mode=[])
        r = merge([v for k, v in res.items() if k[:2] == ("sym", u.id)])
        if r is not None:
            st, x = r
            e["mode"].append("deductive")
            if st != "ok":
                e["sym"] = st
                und.append((u.id, f"{st}: {x}"))
            else:
                e.update(paths=x["paths"], obligations=x["obligations"], discharged=x["discharged"], solver_queries=x["queries"], solver_s=round(x["solver_s"], 2), sym_wall_s=round(x["wall"], 2), hypotheses_used=x["rules"], by_name={k: v[0] for k, v in x["obls"].items()})
                tot["q"] += x["queries"]
                tot["ss"] += x["solver_s"]
                tot["paths"] += x["paths"]
                if not u.bounded:
                    tot["obl"] += x["obligations"]
                    tot["dis"] += x["discharged"]
                for k in x["used"]:
                    used[k] = used.get(k, 0) + x["used"][k]
                for q in x["undecided"]:
                    und.append((u.id, str(q)))
                e["undecided_paths"] = len(x["undecided"])
                if x["obligations"] == 0 and not x["undecided"]:
                    errors.append(f"{u.id}: zero obligations")
                for f in x["failed"][:3]:
                    searches.append((u, f))
                if a.v:
                    print(f"[sym] {u.id}: paths={x['paths']} vac={x['vacuous']} obl={x['obligations']} dis={x['discharged']} und={len(x['undecided'])} wall={x['wall']:.1f}s q={x['queries']} unk={x['unknown']}")
                    for q in x["undecided"][:3]:
                        print("    UND", *q)
                    seen = set()
                    for f in x["failed"]:
                        if f["obligation"] in seen:
                            continue
                        seen.add(f["obligation"])
                        print("    FAIL", f["obligation"], f["opts"], (f["info"] or "")[:700])
        cc = [res[k] for k in res if k[0] == "con" and k[1] == u.id]
        if cc:
            e["mode"].append("concrete replay of the same contract")
            cases = ok = skip = 0
            opts = set()
            for st, x in cc:
                if st != "ok":
                    und.append((u.id, f"concrete {st}: {x}"))
                    continue
                cases += x["cases"]
                ok += x["ok"]
                skip += x["skip"]
                opts |= x["opts"]
                samples += x["samples"][:1]
                for f in x["fail"]:
                    violations.append((u, f))
            e.update(concrete_cases=cases, concrete_ok=ok, concrete_skipped=skip)
            tot["cases"] += cases
            tot["ok"] += ok
            tot["distinct"] += len(opts)
            if a.v:
                print(f"[con] {u.id}: cases={cases} ok={ok} skip={skip} wall={sum(x['wall'] for s, x in cc if s == 'ok'):.1f}s")
                shown = {}
                for st, x in cc:
                    if st == "ok":
                        for f in x["fail"]:
                            shown[f["obligation"]] = shown.get(f["obligation"], 0) + 1
                            if shown[f["obligation"]] <= 2:
                                print("    CFAIL", f)
                    else:
                        print("    ", st, x)
            if ok == 0 and not any(x["fail"] for s, x in cc if s == "ok"):
                errors.append(f"{u.id}: no concrete case satisfied the precondition")
        ev_units.append(e)

    known = known_findings()

    def is_known(u, f):
        for k in known:
            if k.get("property") == prop and k.get("unit") == u.name and k.get("obligation", "").replace("_", " ") in (f["obligation"].replace("_", " "), "*"):
                if "opt" not in k or all(c in repr(f["opts"]) for c in k["opt"].split(";")):
                    return k
        return None

    # failed obligations without a failing input so far: search for one
    searches = [(u, f) for u, f in searches if not is_known(u, f)]
    if searches and not [v for v in violations if not is_known(*v)]:
        st = []
        for j, (u, f) in enumerate(searches[:8]):
            if u.con:
                st.append((("con", u.id, 1000 + j), "con", u, dict(seed=a.seed + 7919, start=5000000 + j, n=int(u.cases * 8), budget=60, fixed=f["opts"], maxfail=1), 300))
        r2 = run_tasks(st)
        for k, (s, x) in r2.items():
            if s == "ok" and x["fail"]:
                violations.append((umap[k[1]], x["fail"][0]))

    printed = set()
    newv = []
    for u, f in violations:
        k = is_known(u, f)
        if k:
            if k["text"] not in printed:
                printed.add(k["text"])
                print(f"KNOWN-FINDING: property={prop} {k['text']}")
        else:
            newv.append((u, f, True))
    if not newv:
        for u, f in searches:
            newv.append((u, f, False))
    write_evidence(a, prop, units, ev_units, tot, used, samples, und, newv)
    if newv:
        u, f, replayable = newv[0]
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        path = os.path.join(HERE, "evidence", "replay", f"{prop}.json")
        d = dict(property=prop, unit=u.name, obligation=f["obligation"], options=f.get("opts"), seed=a.seed, case=f.get("case"), detail=f.get("detail") or f.get("info"), dims=f.get("dims"), path=f.get("path"), where=f.get("where"), replayable=replayable, functions=u.funcs, how="/verif/check.py --replay <this file> reruns this case on the real code")
        if not replayable:
            d["verifier_output"] = f.get("info")
        json.dump(d, open(path, "w"), indent=1, default=str)
        print(f"failed obligation {u.id}/{f['obligation']}: {str(d['detail'])[:400]}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if replayable else " no-failing-input-found"))
        return 1
    if errors:
        print("check error:", *errors, sep="\n  ")
        return 2
    for q in und[:8]:
        print("undecided by the prover (bounded check only):", *[str(z)[:300] for z in q])
    print(f"{prop}: held. obligations {tot['dis']}/{tot['obl']} discharged on {tot['paths']} paths, {tot['ok']} concrete contract cases, {time.time()-T0:.1f}s")
    return 0


def write_evidence(a, prop, units, ev_units, tot, used, samples, und, newv):
    if a.noev or a.unit or a.sym or a.con:
        return
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "proof")
    tb = ["engine: /verif/engine (term normal form, index theory via z3, models of numpy entry-wise/shape functions)"]
    tb += [f"assumed dependency contract: {k} (used {v}x)" for k, v in sorted(used.items())]
    cov = dict(
        obligations=tot["obl"],
        discharged=tot["dis"],
        checker_cmd=f"/verif/check.py {prop} --tier {a.tier}",
        trusted_base=tb,
        functions_under_contract=sorted({f for u in units for f in u.funcs}),
        functions_bounded_only=sorted({f for u in units if (u.bounded or not u.sym) for f in u.funcs} - {f for u in units if u.sym and not u.bounded for f in u.funcs}),
        backends=["engine normal form + z3 %s" % _z3v()],
        solver_queries=tot["q"],
        solver_s=round(tot["ss"], 2),
        paths=tot["paths"],
        units=ev_units,
        evaluations=tot["cases"],
        distinct_nontrivial=tot["distinct"],
        rule="concrete replay of the same contract on the real code: random shapes, options and data; non-trivial = the precondition held and every postcondition was evaluated; distinct = different options or sizes",
        samples=samples[:6],
        undecided=[str(x)[:300] for x in und[:20]],
    )
    d = dict(
        property=prop, tier=a.tier, seed=a.seed, level=level, coverage=cov, wall_s=round(time.time() - T0, 2), violations=len(newv),
        assumptions=["machine floating point is treated as exact real/complex arithmetic in deductive units; concrete units use tolerances", "denominators (singular values, eigenvalues, weights) that the code divides by are non-zero", "numpy/scipy functions satisfy the assumed contracts listed in trusted_base"],
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)


def _z3v():
    import z3

    return z3.get_version_string()


def replay(path):
    d = json.load(open(path))
    contract = load(d["property"])
    u = next(u for u in contract.UNITS[d["property"]] if u.name == d["unit"])
    if not d["replayable"]:
        print("no failing input was found; failed obligation:", d["obligation"])
        print(d["detail"])
        return 1
    for fixed in (None, d["options"]):
        for seed in (d["seed"], d["seed"] + 7919):
            st, info = contract.run_con(u, (seed, u.id, d["case"]), fixed)
            if st == "fail":
                print("reproduced:", json.dumps(info, indent=1, default=str))
                return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    sys.exit(main())
