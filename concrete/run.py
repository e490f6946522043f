"""Concrete layer: evaluates the same contracts on the real code.

  run.py search SPEC --seconds S --seed N --max M --out FILE     random + directed inputs
  run.py replay FILE                                            re-run one recorded input
  run.py models SPEC --in FILE --out FILE                       solver counter-models
"""
import argparse
import json
import math
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

from concrete.env import Env  # noqa: E402
from specs.base import NumOps, num_col  # noqa: E402
from specs import registry  # noqa: E402

_ENVS = {}


def get_env(consts, config=None):
    key = json.dumps([consts, config], sort_keys=True, default=str)
    if key not in _ENVS:
        if len(_ENVS) > 24:
            _ENVS.clear()
        _ENVS[key] = Env(consts, config)
    return _ENVS[key]


class A:
    def __init__(self, d):
        self.__dict__.update(d)

    def __getitem__(self, k):
        return self.__dict__[k]


def finite(x):
    if x is None:
        return True
    if isinstance(x, (list, tuple)):
        return all(finite(v) for v in x)
    try:
        return math.isfinite(float(x))
    except (TypeError, ValueError):
        return True


def evaluate(spec, inp):
    """-> ('skip'|'ok'|'fail', clause, detail)"""
    if hasattr(spec, "check_concrete"):
        return spec.check_concrete(get_env, inp)
    consts = dict(spec.base_consts)
    consts.update(inp.get("consts") or {})
    env = get_env(consts, inp.get("config"))
    allc = env.const_dict()
    o = NumOps(allc)
    o.env = env
    a = A(dict(inp.get("args") or {}))
    for g in spec.ghosts:
        setattr(a, g, None)
    old = num_col(o, inp["layers"], len(inp["layers"]), inp["props"]) if spec.has_grid else None
    try:
        for k, v in spec.ghost_values(o, old, a).items():
            setattr(a, k, v)
        for nm, g in spec.const_requires(o):
            if not g:
                return "skip", nm, None
        for nm, g in spec.requires(o, old, a):
            if not g:
                return "skip", nm, None
    except (ZeroDivisionError, ValueError, OverflowError, IndexError) as e:
        return "skip", f"precondition undefined: {e}", None
    res, exc, layers, nn, props = spec.invoke(env, inp)
    if exc is not None:
        g = spec.on_raise(o, old, a, exc)
        if g is None or not g:
            return "fail", f"raises {exc} only as specified", getattr(env, "last_exc", exc)
        return "ok", None, None
    if not finite(res):
        if spec.nan_ok:
            return "ok", None, None
        return "fail", "result is a finite number", repr(res)
    if layers is not None and not finite(layers):
        return "fail", "layer properties stay finite numbers", repr(layers)[:400]
    new = num_col(o, layers, nn, props) if spec.has_grid else None
    try:
        ens = spec.ensures(o, old, new, a, res)
        # frame
        if spec.has_grid:
            ens = list(ens) + spec.frame(o, old, new)
        for nm, g in ens:
            if isinstance(g, bool) or isinstance(g, (int, float)) or hasattr(g, "item"):
                ok = bool(g)
            else:
                ok = all(bool(x) for x in g)
            if not ok:
                return "fail", nm, {"result": _js(res), "layers": layers, "number_nodes": nn, "props": props}
    except (ZeroDivisionError, OverflowError, ValueError, IndexError, TypeError) as e:
        return "fail", f"postcondition cannot be evaluated ({type(e).__name__}: {e})", {"layers": layers, "number_nodes": nn, "result": _js(res)}
    return "ok", None, None


def _js(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        if hasattr(x, "tolist"):
            return x.tolist()
        if isinstance(x, (list, tuple)):
            return [_js(v) for v in x]
        return repr(x)


def search(spec, seconds, seed, maxn):
    rng = random.Random(f"{seed}-{type(spec).__name__}")
    t0 = time.time()
    n = skipped = 0
    fails = []
    kinds = {}
    directed = list(spec.directed())
    while (time.time() - t0 < seconds and n < maxn) or directed:
        inp = directed.pop() if directed else spec.gen(rng)
        if inp is None:
            break
        try:
            st, clause, detail = evaluate(spec, inp)
        except Exception:  # noqa: BLE001
            return {"spec": type(spec).__name__, "n": n, "skipped": skipped, "fails": fails, "seconds": time.time() - t0,
                    "error": traceback.format_exc()[-1500:], "input": inp}
        n += 1
        if st == "skip":
            skipped += 1
            kinds[clause] = kinds.get(clause, 0) + 1
        elif st == "fail":
            if not any(f["clause"] == clause for f in fails):
                fails.append({"clause": clause, "input": inp, "detail": detail})
            if len(fails) >= 4:
                break
    return {"spec": type(spec).__name__, "n": n, "skipped": skipped, "skips": kinds, "fails": fails, "seconds": round(time.time() - t0, 2)}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("what")
    ap.add_argument("--seconds", type=float, default=5)
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--max", type=int, default=10**9)
    ap.add_argument("--out")
    ap.add_argument("--in", dest="inp")
    a = ap.parse_args()
    if a.mode == "replay":
        d = json.load(open(a.what))
        if not d.get("input"):
            print("no input: obligation", d.get("obligation"), "\n", d.get("verifier_output"))
            return 0
        st, clause, detail = evaluate(registry.get(d["spec"]), d["input"])
        print(st, clause, json.dumps(detail, default=str)[:2000])
        return 1 if st == "fail" else 0
    if a.mode == "search":
        r = [search(registry.get(nm), a.seconds, a.seed, a.max) for nm in a.what.split(",")]
    else:
        r = []
        for m in json.load(open(a.inp)):
            try:
                st, clause, detail = evaluate(registry.get(m["spec"]), m)
            except Exception as e:  # noqa: BLE001
                st, clause, detail = "error", repr(e), None
            r.append({"spec": m["spec"], "status": st, "clause": clause, "detail": detail, "input": m, "obligation": m.get("obligation")})
    txt = json.dumps(r, default=str)
    if a.out:
        open(a.out, "w").write(txt)
    else:
        print(json.dumps(r, default=str, indent=1)[:6000])
    return 0


if __name__ == "__main__":
    sys.exit(main())
