#!/usr/bin/env python3
"""Runs the check of one property:  check.py C05 [--tier quick|thorough] [--replay FILE]

 1. every contract of contracts/<id>.py is verified against the source in $PYVC_REPO (default /repo), one process each;
 2. the run-time oracle of oracles/<id>.py exercises the same property on the real code (directed search for a failing
    input; the bounded stand-in for whatever is out of the verifier's reach);
 3. evidence/<id>.json is rewritten.
Exit 0 and no VIOLATION line, or exit 1 with a VIOLATION line.
"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {"MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
       "PYTHONHASHSEED": "0"}
if os.environ.get("PYVC_CHILD") != "1":
    env = dict(os.environ, PYVC_CHILD="1", **ENV)
    os.execve(PY, [PY] + sys.argv, env)

import argparse
import importlib
import json
import multiprocessing as mp
import pathlib
import random
import re
import resource
import signal
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path.insert(0, str(HERE))
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)
import warnings

warnings.filterwarnings("ignore")
MEM = 5 << 30
CTX = mp.get_context("fork")

BASE_TRUST = [
    "pyvc: the AST interpreter / VC generator in /verif/pyvc (cross-checked against CPython by /verif/tests/crosscheck.py)",
    "z3 4.x / cvc5: an 'unsat' answer of either solver discharges an obligation",
    "machine floating point is treated as exact real arithmetic (rounding, overflow, NaN and -0.0 are not modelled)",
    "python integers are mathematical integers; numpy integer arrays do not overflow",
    "models of numpy / builtins / stdlib listed in pyvc/npmodel.py (assumed contracts on dependencies)",
]


def child(fn, args, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except Exception:
        pass
    try:
        conn.send(fn(*args))
    except BaseException as e:  # noqa: BLE001
        conn.send({"crash": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]})
    conn.close()


def run_jobs(jobs, width):
    """jobs: list of (key, fn, args, limit_s) -> {key: result or {'crash':..}}"""
    todo, live, out = list(jobs), {}, {}
    while todo or live:
        while todo and len(live) < width:
            key, fn, args, limit = todo.pop(0)
            a, b = CTX.Pipe(False)
            p = CTX.Process(target=child, args=(fn, args, b))
            p.start()
            b.close()
            live[key] = (p, a, time.time() + limit)
        time.sleep(0.02)
        for key in list(live):
            p, a, dl = live[key]
            if a.poll():
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = {"crash": "process died"}
                p.join(5)
                del live[key]
            elif not p.is_alive():
                if not a.poll():
                    out[key] = {"crash": "process died"}
                    del live[key]
            elif time.time() > dl:
                p.kill()
                p.join()
                out[key] = {"crash": "killed after its time limit", "timeout": True}
                del live[key]
    return out


def run_one_contract(i, total, scale):
    from pyvc import harness
    ct = harness.REGISTRY[i]
    ct.timeout *= scale
    return harness.run_contract(ct, total)


class CaseTimeout(Exception):
    pass


def run_case(orc, case, limit=30):
    def alarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return orc.run(case)
    except CaseTimeout:
        return {"what": f"no result within {limit} s", "timeout": True}
    except Exception as e:  # noqa: BLE001
        # an error out of the code under test which the oracle does not expect on any of its (valid) cases
        if isinstance(e, (AttributeError, NameError, ImportError, NotImplementedError, MemoryError)):
            raise
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if not any("/hrosailing/" in f and "/verif/" not in f for f in files[1:]):
            raise
        return {"what": f"raised {type(e).__name__}: {str(e)[:300]}"}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_oracle(prop, seed, part, parts, budget, tier, known):
    orc = importlib.import_module("oracles." + prop.lower())
    t0 = time.time()
    n, distinct, samples, fails, knownhits = 0, set(), [], [], []
    rng = random.Random(f"{prop}-{seed}-{part}")
    stop = False
    while not stop:
        for k, case in enumerate(orc.cases(rng, tier)):
            if k % parts != part and getattr(orc, "PARTITION", False):
                continue
            n += 1
            key = json.dumps(case, sort_keys=True, default=str)
            distinct.add(hash(key))
            if len(samples) < 2:
                samples.append(key[:300])
            r = run_case(orc, case)
            if r and r.get("timeout"):
                r = run_case(orc, case, 90)
            if r:
                k = r.get("key")
                if k and k in known:
                    knownhits.append(k)
                else:
                    fails.append({"case": case, **r})
                    stop = True
                    break
            if time.time() - t0 > budget:
                stop = True
                break
        if tier == "quick":
            break
    return {"n": n, "distinct": len(distinct), "samples": samples, "fails": fails, "known": sorted(set(knownhits)),
            "wall": round(time.time() - t0, 1), "rule": getattr(orc, "RULE", orc.__doc__ or "")}


def save_replay(prop, body):
    d = HERE / "replays"
    d.mkdir(exist_ok=True)
    import hashlib
    h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
    f = d / f"{prop}-{h}.json"
    f.write_text(json.dumps(body, indent=1, default=str))
    return f


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-oracle", action="store_true")
    ap.add_argument("--no-contracts", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        body = json.loads(pathlib.Path(a.replay).read_text())
        if body.get("case") is None:
            print("no failing input in this replay file; failed obligation:\n" + json.dumps(body.get("obligation"), indent=1))
            return 1
        orc = importlib.import_module("oracles." + prop.lower())
        r = run_case(orc, body["case"])
        print("replayed:", json.dumps(r, default=str) if r else "property holds on this input")
        return 1 if r else 0
    t0 = time.time()
    thorough = a.tier == "thorough"
    os.chdir(HERE)
    import hrosailing  # the code under verification
    assert pathlib.Path(hrosailing.__file__).resolve().is_relative_to(pathlib.Path(REPO).resolve()), hrosailing.__file__
    for m in ("polardiagram", "processing", "plotting", "cruising", "core", "models"):
        try:
            importlib.import_module("hrosailing." + m)
        except Exception as e:  # reported by whichever contract needs it
            print("import of hrosailing." + m, "failed:", e, file=sys.stderr)
    kf_file = HERE / "known_findings.json"
    kfs = [k for k in (json.loads(kf_file.read_text()) if kf_file.exists() else []) if k.get("property") == prop]
    known = {k["key"]: k for k in kfs if k.get("status") == "known"}
    jobs = []
    cts = []
    if not a.no_contracts and (HERE / "contracts" / (prop.lower() + ".py")).exists():
        from pyvc import harness
        importlib.import_module("contracts." + prop.lower())
        cts = harness.REGISTRY
        total, scale = (400, 4) if thorough else (100, 1)
        for i, ct in enumerate(cts):
            jobs.append((("c", i), run_one_contract, (i, total, scale), total + 40))
    parts = 2
    has_orc = not a.no_oracle and (HERE / "oracles" / (prop.lower() + ".py")).exists()
    if has_orc:
        budget = 300 if thorough else 25
        oj = [(("o", k), run_oracle, (prop, seed, k, parts, budget, a.tier, set(known)), budget + 200) for k in range(parts)]
        jobs = jobs[:2] + oj + jobs[2:]
    res = run_jobs(jobs, 8)
    # second chance for obligations the solver did not settle (load, timeouts)
    again = []
    for i, ct in enumerate(cts):
        r = res[("c", i)]
        if "crash" in r or any(o["result"] == "unknown" for o in r["obligations"]) or r["status"] == "failed":
            if not r.get("timeout"):
                again.append((("c", i), run_one_contract, (i, 400 if thorough else 200, 6), 450))
    if again:
        res2 = run_jobs(again, 4)
        for k, r in res2.items():
            if "crash" not in r:
                res[k] = r
    functions, bounded, obligations, discharged = [], [], 0, 0
    trust, assumptions, failed, backends, stime, inlined = set(), set(), [], {}, {}, set()
    for i, ct in enumerate(cts):
        r = res[("c", i)]
        if "crash" in r:
            r = {"id": ct.id, "target": ct.target, "status": "unsupported", "reason": r["crash"], "obligations": [], "wall": 0}
        obligations += len(r["obligations"])
        discharged += sum(o["result"] == "proved" for o in r["obligations"])
        for k, v in (r.get("backends") or {}).items():
            backends[k] = backends.get(k, 0) + v
        for k, v in (r.get("solver_time") or {}).items():
            stime[k] = round(stime.get(k, 0) + v, 2)
        inlined |= set(r.get("inlined", ()))
        trust |= set(r.get("assumed", ()))
        ent = {"contract": ct.id, "functions": ct.target, "says": ct.title, "status": r["status"],
               "obligations": len(r["obligations"]), "paths": r.get("paths"), "wall_s": r.get("wall")}
        if ct.bounded:
            ent["bounded"] = ct.bounded
            bounded.append(f"{ct.id}: {ct.bounded}")
        st = r["status"]
        refuted = [o for o in r["obligations"] if o["result"] == "failed"]
        undecided = [o for o in r["obligations"] if o["result"] == "unknown"]
        lost = [o for o in r["obligations"] if o["kind"] == "invariant" and o["result"] != "proved"]
        if lost:  # the loop is written differently: its invariant says nothing about it
            undecided, refuted = lost, []
        if st == "failed" and refuted:
            failed.append((ct, refuted[0]))
        elif st != "proved":
            why = r.get("reason") or f"undecided: {undecided[0]['name'] if undecided else ''}"
            ent["not_proved_because"] = why
            bounded.append(f"{ct.id}: NOT PROVED on this tree ({why}); only the run-time oracle stands in")
        functions.append(ent)
    on, od, osamples, ofails, oknown, orule = 0, 0, [], [], set(), ""
    for k in range(parts if has_orc else 0):
        r = res[("o", k)]
        if "crash" in r:
            print("oracle process:", r["crash"], r.get("tb", ""), file=sys.stderr)
            assumptions.add("an oracle process ended early: " + r["crash"])
            continue
        on += r["n"]
        od += r["distinct"]
        osamples += r["samples"]
        ofails += r["fails"]
        oknown |= set(r["known"])
        orule = r["rule"]
    viol = []
    if has_orc:
        orc = importlib.import_module("oracles." + prop.lower())
        for k, e in known.items():
            r = run_case(orc, e["case"])
            if r and r.get("key") == k:
                print(f"KNOWN-FINDING: property={prop} {e['what']}")
            elif r:
                ofails.append({"case": e["case"], **r})
    if ofails:
        f = ofails[0]
        body = {"property": prop, "case": f["case"], "what": f["what"], "replay": f"check.py {prop} --replay <this file>"}
        if failed:
            body["failed_obligation"] = {"contract": failed[0][0].id, "functions": failed[0][0].target, **failed[0][1]}
        viol.append((save_replay(prop, body), "", f["what"]))
    elif failed:
        ct, o = failed[0]
        body = {"property": prop, "case": None,
                "obligation": {"contract": ct.id, "functions": ct.target, "says": ct.title, **o},
                "all_failed": [f"{c.id}: {x['name']}" for c, x in failed]}
        viol.append((save_replay(prop, body), " no-failing-input-found", f"obligation '{o['name']}' of {ct.id} failed"))
    proved = [e for e in functions if e["status"] == "proved"]
    man = json.loads((HERE / "MANIFEST.json").read_text()) if (HERE / "MANIFEST.json").exists() else {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "proof")
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": f"python3 /verif/check.py {prop} --tier {a.tier}",
            "trusted_base": BASE_TRUST + sorted(trust),
            "functions_under_contract": functions,
            "functions_inlined": sorted(inlined),
            "discharged_by_backend": backends, "solver_time_s": stime,
            "contracts_proved": len(proved), "contracts": len(functions),
            "bounded_or_unproved": bounded,
            "evaluations": on, "distinct_nontrivial": od, "rule": (orule or "no run-time oracle").strip(),
            "samples": osamples[:4] or ["-"],
            "explanation": "obligations are generated from the current source by pyvc and discharged by the named back ends; "
                           "evaluations are run-time oracle cases on the real code (bounded, not counted as proof)",
        },
        "assumptions": sorted(assumptions) + BASE_TRUST + sorted(trust) + bounded,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    evdir = pathlib.Path(os.environ.get("PYVC_EVIDENCE", HERE / "evidence"))  # elsewhere for planted bugs
    evdir.mkdir(exist_ok=True)
    (evdir / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{prop}: {len(proved)}/{len(functions)} contracts proved, {discharged}/{obligations} obligations discharged "
          f"{backends}, solver {stime}; oracle cases {on}; wall {ev['wall_s']} s")
    for e in functions:
        if e["status"] != "proved":
            print("   not proved:", e["contract"], e["status"], e.get("not_proved_because", ""))
    if failed:
        for c, o in failed:
            print("   failed obligation:", c.id, "-", o["name"])
    for f, suffix, what in viol:
        print("   ", what)
        print(f"VIOLATION property={prop} replay={f.relative_to(HERE)}{suffix}")
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
