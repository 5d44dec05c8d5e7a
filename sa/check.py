"""Command line: decide one property on the current source of /repo.

    python3 -m sa.check C01 [--tier quick|thorough]
"""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import families
from .interp import Engine
from .values import Budget, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")
GRACE = 40  # seconds to go on after the first violation
EVID = os.path.join(VERIF, "evidence")
_eng = None


class Broken(Exception):
    """The analysis cannot give an answer."""


def work(task):
    """Analyse one task in a worker process."""
    fam, spec = task
    eng = _eng
    eng.visited_funcs.clear()
    eng.visited_sites.clear()
    res = {"findings": [], "undecided": [], "stats": {}, "units": 0, "fam": fam, "samples": [], "notes": []}
    try:
        families.FAMILIES[fam].run(eng, spec, res)
    except (Unsupported, Budget) as e:
        res["undecided"].append((f"{fam} {spec}", f"{type(e).__name__}: {e}"[:300]))
    except RecursionError:
        res["undecided"].append((f"{fam} {spec}", "recursion limit of the analyser"))
    except Exception as e:  # internal failure: no answer for this task
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res["undecided"].append((f"{fam} {spec}", f"{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})"[:300]))
    res["findings"] = [
        dict(prop=f.prop, rule=f.rule, file=f.file, line=f.line, func=f.func, scen=f.scen, detail=f.detail, path=list(f.path))
        for f in res["findings"]
    ]
    res["funcs"] = sorted({(i.file, i.qual) for i in eng.visited_funcs})
    res["sites"] = sorted(eng.visited_sites)
    return res


def load_known():
    with open(KNOWN) as f:
        return json.load(f)


def is_known(known, f):
    for k in known.get("findings", []):
        if k["property"] != f["prop"] or k["rule"] != f["rule"]:
            continue
        if k["construct"] != f"{f['file']}:{f['func']}":
            continue
        if "scenario" in k and k["scenario"] not in f["scen"]:
            continue
        return k
    return None


def main(argv=None):
    global _eng
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--limit", type=float, default=780.0, help="seconds after which the rest is left undecided")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(20000)
    try:
        _eng = Engine(repo=a.repo)
        _eng.load_package()
        tasks = families.tasks(_eng, prop, a.tier)
        if not tasks:
            raise Broken("no scenario could be constructed")
    except Exception as e:
        print(f"ANALYSIS-BROKEN property={prop}: {type(e).__name__}: {e}")
        traceback.print_exc()
        return 2
    known = load_known()
    results, hit = [], None
    with mp.get_context("fork").Pool(max(1, a.jobs)) as pool:
        todo = pool.imap_unordered(work, tasks, chunksize=1)
        while len(results) < len(tasks):
            # a violation ends the analysis after a while, so that several constructs can be reported
            left = t0 + a.limit - time.time()
            if hit is not None:
                left = min(left, hit + GRACE - time.time())
            try:
                r = todo.next(timeout=max(0.1, left))
            except mp.TimeoutError:
                pool.terminate()
                break
            results.append(r)
            if hit is None and any(f["prop"] == prop and is_known(known, f) is None for f in r["findings"]):
                hit = time.time()

    findings, undec, stats, funcs, sites, units, fams = {}, [], {}, set(), set(), 0, {}
    samples, notes = [], []
    for r in results:
        units += r["units"]
        fams[r["fam"]] = fams.get(r["fam"], 0) + r["units"]
        undec += r["undecided"]
        funcs.update(map(tuple, r["funcs"]))
        sites.update(map(tuple, r["sites"]))
        samples += r["samples"][:1]
        notes += r["notes"]
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for f in r["findings"]:
            if f["prop"] != prop:
                continue
            k = (f["rule"], f["file"], f["func"])
            findings.setdefault(k, []).append(f)
    for f in families.whole_program(_eng, prop, notes):
        findings.setdefault((f["rule"], f["file"], f["func"]), []).append(f)

    skipped = len(tasks) - len(results)
    if skipped and hit is None:
        undec.append((f"{skipped} of {len(tasks)} tasks", f"not finished within {a.limit} s"))
    new, old = [], []
    for k, fs in sorted(findings.items()):
        unknown = [f for f in fs if is_known(known, f) is None]
        for f in fs:
            kk = is_known(known, f)
            if kk is not None and kk not in old:
                old.append(kk)
        if unknown:
            new.append((k, unknown))
    for kk in old:
        print(f"KNOWN-FINDING: property={prop} {kk['what']}")
    lib = {f for f in funcs if f[0].startswith("synced_collections")}
    coverage = {
        "explanation": families.explain(prop),
        "rule": families.RULETEXT[prop],
        "scenarios": units,
        **({"scenarios_per_family": fams} if len(fams) > 1 else {}),
        "functions_analysed": len(lib),
        "call_sites_resolved": len(sites),
        "undecided": len(undec),
        **({"tasks_not_run": skipped} if skipped else {}),
        "undecided_examples": [f"{x}: {y}" for x, y in undec[:8]],
        "known_findings_seen": len(old),
        "samples": samples[:5],
        **stats,
    }
    evid = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "other",
        "coverage": coverage,
        "assumptions": families.assumptions(prop),
        "violations": len(new),
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(evid, f, indent=1)
    if a.v:
        for x, y in undec[:40]:
            print("UNDECIDED", x, y)
    if undec:
        print(f"{prop}: {len(undec)} obligations undecided (listed in the evidence)")
    print(f"{prop}: {units} scenarios, {len(lib)} functions, {len(sites)} call sites, {evid['wall_s']} s")
    if new:
        path = os.path.join(EVID, f"{prop}-violations.txt")
        with open(path, "w") as f:
            for (rule, file, func), fs in new:
                x = fs[0]
                txt = f"{file}:{x['line']} {func} [{rule}] ({len(fs)} scenarios)\n    e.g. {x['scen']}\n    {x['detail']}\n"
                txt += "".join(f"      via {p}\n" for p in x["path"])
                f.write(txt)
                print(txt, end="")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if len(undec) > 0.5 * units or 2 * skipped > len(tasks):
        print(f"ANALYSIS-BROKEN property={prop}: {len(undec)} of {units} scenarios undecided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
