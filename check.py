#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--update-ledger]

Deductive verification of the contracts of one property against /repo's current
source, plus execution of the same contracts on the real code.  Exit 0: held.
Exit 1: a line  VIOLATION property=<id> replay=<path> [no-failing-input-found].
"""
import argparse
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VT = os.environ.get("PYVC_VT", "python3-vt")
PY = "/opt/venv/bin/python"
RUN = os.path.join(HERE, "concrete", "run.py")
LEDGER = os.path.join(HERE, "ledger")
KNOWN = os.path.join(HERE, "known_findings.json")


def sh(cmd, timeout, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=tempfile.gettempdir())
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -9, "", "timeout"


def proof_job(name, case, tmp, limit, scale):
    out = os.path.join(tmp, f"p_{name}_{case}.json")
    rc, so, se = sh([VT, os.path.join(HERE, "pyvc", "job.py"), name, str(case), out], limit,
                    {"PYVC_BUDGET_SCALE": str(scale)})
    if os.path.exists(out):
        try:
            return json.load(open(out))
        except ValueError:
            pass
    return {"spec": name, "caseno": case, "error": f"prover process ended ({rc}): {se[-600:]}", "obligations": [],
            "models": [], "functions": [], "source": {}}


def search_job(name, tmp, seconds, seed, maxn):
    out = os.path.join(tmp, f"s_{name}.json")
    rc, so, se = sh([PY, RUN, "search", name, "--seconds", str(seconds), "--seed", str(seed), "--max", str(maxn), "--out", out],
                    seconds * 6 + 240)
    if os.path.exists(out):
        return json.load(open(out))[0]
    return {"spec": name, "n": 0, "skipped": 0, "fails": [], "error": f"run ended ({rc}): {se[-800:]}"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--update-ledger", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = a.tier == "thorough"
    from specs import registry
    specs = registry.for_property(a.prop)
    if a.only:
        specs = [s for s in specs if type(s).__name__ in a.only.split(",")]
    if not specs:
        print(f"no contracts for {a.prop}")
        return 2
    scale = 3.0 if thorough else 1.0
    tmp = tempfile.mkdtemp(prefix="vc_")
    proofs, searches = [], []
    jobs = []
    workers = 8
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = []
        if not a.no_proof:
            ordered = sorted([(s, c) for s in specs if not s.bounded_only for c in range(len(s.cases))], key=lambda x: -x[0].budget)
            for s, c in ordered:
                futs.append(("p", ex.submit(proof_job, type(s).__name__, c, tmp, s.budget * scale * 1.5 + 60, scale)))
        for s in specs:
            secs = s.search_seconds * (8 if thorough else 1)
            futs.append(("s", ex.submit(search_job, type(s).__name__, tmp, secs, seed, 10**9)))
        for k, f in futs:
            (proofs if k == "p" else searches).append(f.result())
    # counter-models replayed on the real code
    models = [m for r in proofs for m in r.get("models", [])]
    replayed = []
    if models:
        mi, mo = os.path.join(tmp, "mi.json"), os.path.join(tmp, "mo.json")
        json.dump(models, open(mi, "w"))
        sh([PY, RUN, "models", "-", "--in", mi, "--out", mo], 120)
        if os.path.exists(mo):
            replayed = json.load(open(mo))
    known = json.load(open(KNOWN))["findings"] if os.path.exists(KNOWN) else []
    known = [k for k in known if k["property"] == a.prop]
    lines = []
    if known:
        mi, mo = os.path.join(tmp, "ki.json"), os.path.join(tmp, "ko.json")
        json.dump([dict(k["input"], spec=k["spec"]) for k in known], open(mi, "w"))
        sh([PY, RUN, "models", "-", "--in", mi, "--out", mo], 120)
        res = json.load(open(mo)) if os.path.exists(mo) else []
        for k, r in zip(known, res):
            if r["status"] == "fail":
                lines.append(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    rc, verdict = judge(a, specs, proofs, searches, replayed, lines, t0, seed)
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    return rc


def key(r):
    return f"{r['spec']}#{r.get('caseno', 0)}"


def judge(a, specs, proofs, searches, replayed, lines, t0, seed):
    pid = a.prop
    rdir = os.path.join(HERE, "replays")
    violations = []
    # 1. concrete failures
    for s in searches:
        for f in s.get("fails", []):
            violations.append({"kind": "input", "spec": s["spec"], "clause": f["clause"], "input": f["input"], "observed": f["detail"]})
    for r in replayed:
        if r["status"] == "fail":
            violations.append({"kind": "input", "spec": r["spec"], "clause": r["clause"], "input": r["input"], "observed": r["detail"],
                               "obligation": r["obligation"]})
    # 2. failed obligations
    lpath = os.path.join(LEDGER, f"{pid}.json")
    ledger = json.load(open(lpath)) if os.path.exists(lpath) else {}
    failed, undecided, total, discharged = [], [], 0, 0
    by = {}
    funcs = set()
    solver_s = 0.0
    newledger = {}
    for r in proofs:
        obs = [o for o in r["obligations"]]
        bad = [o for o in obs if o["status"] != "proved"]
        total += len(obs) or 1
        discharged += len(obs) - len(bad)
        solver_s += r.get("solver_s", 0) or 0
        funcs |= set(r.get("functions", []))
        for k, v in (r.get("by") or {}).items():
            by[k] = by.get(k, 0) + v
        ok = not bad and not r.get("error")
        newledger[key(r)] = {"proved": ok, "obligations": sorted({o["name"] for o in obs if o["status"] == "proved" and o["kind"] != "inv"}),
                             "source": r.get("source", {}), "error": r.get("error"), "not_proved": [o["name"] for o in bad]}
        if ok:
            continue
        led = ledger.get(key(r))
        same = led is not None and r.get("source") and led.get("source") == r.get("source")
        if led is not None and led.get("proved") and not same:
            for o in bad:
                if o["kind"] != "inv":
                    failed.append({"kind": "obligation", "spec": r["spec"], "case": r.get("case"), "clause": o["name"], "status": o["status"],
                                   "verifier_output": o.get("detail") or r.get("error")})
            if r.get("error"):
                failed.append({"kind": "obligation", "spec": r["spec"], "case": r.get("case"), "clause": "the function is within the contract's reach",
                               "status": "not accepted", "verifier_output": r["error"]})
        undecided.append({"job": key(r), "error": r.get("error"), "not_proved": [f"{o['name']}: {o['status']}" for o in bad][:12],
                          "decided_by": "bounded execution of the same contract (see bounded)"})
    if a.update_ledger:
        os.makedirs(LEDGER, exist_ok=True)
        if a.only:
            newledger = {**ledger, **newledger}
        json.dump(newledger, open(lpath, "w"), indent=1, sort_keys=True)
    os.makedirs(rdir, exist_ok=True)
    seen = 0
    if violations:
        for v in violations[:4]:
            p = os.path.join(rdir, f"{pid}_{seen}.json")
            v["replay_cmd"] = f"{PY} {RUN} replay {p}"
            json.dump(v, open(p, "w"), indent=1, default=str)
            lines.append(f"VIOLATION property={pid} replay={p}")
            lines.append(f"  {v['spec']}: {v['clause']}")
            seen += 1
    elif failed:
        for v in failed[:4]:
            p = os.path.join(rdir, f"{pid}_{seen}.json")
            json.dump(v, open(p, "w"), indent=1, default=str)
            lines.append(f"  {v['spec']}: obligation not discharged: {v['clause']} [{v['status']}]")
            lines.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
            seen += 1
    evid(a, specs, proofs, searches, violations, failed, undecided, total, discharged, by, funcs, solver_s, t0, seed, replayed)
    for l in lines:
        print(l)
    bad = bool(violations or failed)
    for s in searches:
        if s.get("error"):
            print(f"  note: {s['spec']}: {s['error'][-1200:]}")
    for u in undecided:
        print(f"  note: not proved: {u['job']}: {u['error'] or ''} {u['not_proved']}"[:600])
    print(f"{pid} {a.tier}: {discharged}/{total} obligations discharged, {sum(s.get('n', 0) - s.get('skipped', 0) for s in searches)} executions, "
          f"{'VIOLATED' if bad else 'held'} in {time.time() - t0:.0f}s")
    return (1 if bad else 0), lines


def evid(a, specs, proofs, searches, violations, failed, undecided, total, discharged, by, funcs, solver_s, t0, seed, replayed):
    from specs.base import ASSUMPTIONS
    import importlib
    level = level_of(a.prop)
    ev = sum(s.get("n", 0) for s in searches)
    eff = sum(s.get("n", 0) - s.get("skipped", 0) for s in searches)
    samples = []
    for r in proofs[:6]:
        samples.append({"contract": r["spec"], "function": r.get("function"), "case": r.get("case"), "paths": r.get("paths"),
                        "obligations": [o["name"] for o in r["obligations"]][:20], "wall_s": r.get("wall_s")})
    cov = {
        "obligations": total, "discharged": discharged,
        "checker_cmd": f"python3 {os.path.join(HERE, 'check.py')} {a.prop} --tier {a.tier}",
        "trusted_base": ["pyvc: VC generator in /verif/pyvc (symbolic semantics of the Python/NumPy subset)", "z3 4.x (python3-vt)", "cvc5"],
        "back_ends": by, "solver_s": round(solver_s, 1),
        "functions_under_contract": sorted({f"{s.module}:{s.qual}" for s in specs if not s.bounded_only}),
        "functions_read": sorted(funcs),
        "jobs": [{"job": key(r), "case": r.get("case"), "ok": not r.get("error") and all(o["status"] == "proved" for o in r["obligations"]),
                  "obligations": len(r["obligations"]), "paths": r.get("paths"), "wall_s": r.get("wall_s"), "error": r.get("error")} for r in proofs],
        "undecided": undecided,
        "bounded": {"what": "the same contracts executed on the real code with random and directed inputs (stand-in where a job is undecided; never counted as proved)",
                    "contracts": [type(s).__name__ for s in specs if s.bounded_only],
                    "runs": [{k: s.get(k) for k in ("spec", "n", "skipped", "seconds")} for s in searches]},
        "counter_models_replayed": len(replayed),
        "evaluations": ev, "distinct_nontrivial": eff,
        "rule": "random columns/arguments from the contract's generator; non-trivial = the contract's precondition holds",
        "samples": samples,
        "explanation": "contract-based deductive verification of the source text in /repo; bounded execution as stand-in where stated",
    }
    d = {"property": a.prop, "tier": "thorough" if a.tier == "thorough" else "quick", "seed": seed, "level": level, "coverage": cov,
         "assumptions": ASSUMPTIONS + sorted({s.note for s in specs if s.note}),
         "wall_s": round(time.time() - t0, 1),
         "violations": [{"spec": v["spec"], "clause": v["clause"], "kind": v["kind"]} for v in (violations + failed)][:10]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(HERE, "evidence", f"{a.prop}.json"), "w"), indent=1, default=str)


def level_of(pid):
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    for c in m["checks"]:
        if c["property"] == pid:
            return c["level"]
    return "proof"


if __name__ == "__main__":
    sys.exit(main())
