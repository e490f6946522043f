"""Run the real cosipy_core on a random forcing series and record, per step, what its callees got and returned."""
import contextlib
import copy
import io
import math

import numpy as np

from specs import core_specs as cs
from specs.base import rand_column, rand_props
from .env import time_limit, Timeout


def gen(rng, cases):
    case = dict(rng.choice(cases))
    case["restart"] = rng.random() < 0.6
    case["full_field"] = rng.random() < 0.7
    nt = rng.choice([1, 2, 3, 6, 10])
    warm = rng.random() < 0.5
    f = {"T2": [rng.uniform(255, 272) if not warm else rng.uniform(268, 283) for _ in range(nt)],
         "RH2": [rng.uniform(10, 100) for _ in range(nt)],
         "PRES": [rng.uniform(500, 1000) for _ in range(nt)],
         "G": [rng.choice([0.0, -1.0, rng.uniform(0, 1200)]) for _ in range(nt)],
         "U2": [rng.choice([0.0, rng.uniform(0, 20)]) for _ in range(nt)]}
    p = cs.inputs_present(case)
    if "RRR" in p:
        f["RRR"] = [rng.choice([0.0, 0.005, rng.uniform(0, 0.3), rng.uniform(0, 15)]) for _ in range(nt)]
    if "SNOWFALL" in p:
        f["SNOWFALL"] = [rng.choice([0.0, 0.0005, rng.uniform(0, 0.002), rng.uniform(0, 0.08)]) for _ in range(nt)]
        if "RRR" in f and rng.random() < 0.7:      # snowfall as part of the total
            f["SNOWFALL"] = [0.0 if s == 0 else min(s, r / 1000) for s, r in zip(f["SNOWFALL"], f["RRR"])]
    if "LWin" in p:
        f["LWin"] = [rng.uniform(180, 400) for _ in range(nt)]
    if "N" in p:
        f["N"] = [rng.uniform(0, 1) for _ in range(nt)]
    consts = {"dt": rng.choice([3600, 3600, 10800]), "mult_factor_RRR": rng.choice([1.0, 1.0, 1.3]),
              "densification_method": case["densification_method"]}
    inp = {"args": {}, "forcing": f, "case": {k: v for k, v in case.items() if k != "densification_method"}, "consts": consts,
           "slope": rng.choice([None, 0.0, rng.uniform(0, 40)]), "snowheight": rng.choice([0.0, 0.05, rng.uniform(0, 2.5)])}
    inp["consts"]["initial_snowheight_constant"] = inp["snowheight"]
    inp["consts"]["initial_glacier_height"] = rng.choice([4.0, 10.0])
    inp["config"] = {"force_use_TP": case["TP"], "force_use_N": case["forceN"], "stake_evaluation": False, "restart": case["restart"],
                     "full_field": case["full_field"], "WRF_X_CSPY": False, "WRF": False, "northing": "lat", "easting": "lon"}
    if case["restart"]:
        n = rng.randint(4, 8)
        snow = rng.randint(0, n - 4)
        col = rand_column(rng, n, n, snow_on_ice=True, snow=snow)
        inp["restart"] = {"layers": [[max(l[0], 0.02 if i < snow else 0.5)] + l[1:] for i, l in enumerate(col)], "props": rand_props(rng)}
    return inp


def dataset(inp):
    import pandas as pd
    import xarray as xr
    nt = len(inp["forcing"]["T2"])
    ds = xr.Dataset(coords={"time": pd.date_range("2009-01-01", periods=nt, freq="1h"), "lat": 30.5, "lon": 90.5})
    for k, v in inp["forcing"].items():
        ds[k] = ("time", np.array(v, float))
    if inp["slope"] is not None:
        ds["SLOPE"] = float(inp["slope"])
    return ds


def restart_dataset(inp, max_layers):
    import xarray as xr
    r = inp["restart"]
    n = len(r["layers"])
    pad = lambda xs: np.array(list(xs) + [np.nan] * (max_layers - n), float)
    ds = xr.Dataset()
    dens = lambda l: 917 * l[3] + 1000 * l[2] + 1.1 * max(0, 1 - l[2] - l[3])
    for nm, xs in (("LAYER_HEIGHT", [l[0] for l in r["layers"]]), ("LAYER_T", [l[1] for l in r["layers"]]),
                   ("LAYER_LWC", [l[2] for l in r["layers"]]), ("LAYER_IF", [l[3] for l in r["layers"]]),
                   ("LAYER_RHO", [dens(l) for l in r["layers"]])):
        ds[nm] = ("layer", pad(xs))
    ds["NLAYERS"] = float(n)
    for nm, v in zip(("NEWSNOWHEIGHT", "NEWSNOWTIMESTAMP", "OLDSNOWTIMESTAMP"), r["props"]):
        ds[nm] = float(v)
    return ds


def number(v):
    """None is stored as nan; nan equals nan here"""
    v = math.nan if v is None else float(v)
    return MISSING if math.isnan(v) else v


def getters(G):
    out = {g: np.array(getattr(G, g)(), float).tolist() for g in cs.PROFILES.values()}
    out.update(get_total_snowheight=G.get_total_snowheight(), get_total_height=G.get_total_height(), get_number_layers=G.get_number_layers())
    out.update(zip(cs.PROPS, (G.new_snow_height, G.new_snow_timestamp, G.old_snow_timestamp)))
    return out


MISSING = -987654321.0


class Step:
    def __init__(self, inp, t, res, ghost, mult):
        self.inp_, self.t, self.res, self.ghost = inp, t, res, ghost
        c = inp["case"]
        f = inp["forcing"]
        use_snow = c["precip"] in ("both", "snow") and not c["TP"]
        self.snow_in = f["SNOWFALL"][t] * mult if use_snow else None
        self.total = f["RRR"][t] * mult if c["precip"] in ("both", "total") else None
        self.T2, self.U2 = f["T2"][t], f["U2"][t]
        self.full_field = c["full_field"]

    def __getitem__(self, nm):
        return number(self.res[nm][self.t])

    def inp(self, nm):
        return self.inp_["forcing"][nm][self.t]

    def g(self, nm):
        return self.ghost.get(nm, math.nan)

    def at_end(self, g):
        return self.ghost["end"][g]

    def swnet(self):
        return max(self.inp("G"), 0.0) * (1 - self["ALBEDO"])

    def sw_residual(self):
        n = self.swnet()
        return n - self.g("pen_G") if n > 0 else n

    def subsurface_melt(self):
        return self.g("pen_subM") if self.swnet() > 0 else 0.0

    def profile_is(self, nm, g):
        row = np.asarray(self.res[nm][self.t], float)
        want = self.ghost["end"][g]
        return len(want) <= len(row) and np.array_equal(row[:len(want)], want) and bool(np.isnan(row[len(want):]).all())

    def lw_args(self):
        c = self.inp_["case"]
        useL = c["lw"] in ("both", "LWin") and not c["forceN"]
        useN = c["lw"] in ("both", "N")
        return all((self.ghost.get("arg_" + nm) == self.inp(nm)) if use else (self.ghost.get("arg_" + nm) is None)
                   for nm, use in (("LWin", useL), ("N", useN)))

    def slope(self):
        return self.inp_["slope"] or 0.0


class Final:
    def __init__(self, res, end, started, inp):
        self.res, self.end, self.started, self.inp = res, end, started, inp

    def indices_own(self):
        return self.res["indY"] == 3 and self.res["indX"] == 7

    def saved_scalar(self, nm, g):
        return np.asarray(self.res["RESTART"][nm].values).size == 1 and float(np.asarray(self.res["RESTART"][nm].values).ravel()[0]) == float(self.end[g])

    def saved_profile(self, nm, g):
        v = np.asarray(self.res["RESTART"][nm].values, float)
        n = len(self.end[g])
        return np.array_equal(v[:n], self.end[g]) and bool(np.isnan(v[n:]).all())

    def started_right(self):
        return self.started == ["load" if self.inp["case"]["restart"] else "init"]


def run(env, inp):
    """-> steps, final, exception kind"""
    m = env.mod(cs.CORE)
    c = env.constants
    steps, cur, started, grid = [], {}, [], []
    saved = {}

    def patch(nm, f):
        saved[nm] = getattr(m, nm)
        setattr(m, nm, f(saved[nm]))

    def starter(how):
        def deco(real):
            def call(*a):
                G = real(*a)
                started.append(how)
                grid.append(G)
                melt = G.remove_melt_weq

                def remove(x):
                    cur["removed"] = float(x)
                    cur["lwc_removed"] = float(melt(x))
                    return cur["lwc_removed"]
                G.remove_melt_weq = remove
                return G
            return call
        return deco

    def albedo(real):
        def call(*a):
            r = real(*a)
            cur["alpha"] = float(r[0])
            return r
        return call

    def one(key):
        def deco(real):
            def call(*a):
                r = real(*a)
                cur[key] = float(r)
                return r
            return call
        return deco

    def pen(real):
        def call(G, sw, dt):
            r = real(G, sw, dt)
            cur.update(pen_subM=float(r[0]), pen_G=float(r[1]))
            return r
        return call

    def surface(real):
        def call(*a, **k):
            import inspect
            b = inspect.signature(real).bind(*a, **k).arguments
            ps = list(inspect.signature(real).parameters)
            for nm, p in zip(cs.UST_ARGS, ps[1:]):
                v = b.get(p)
                cur["arg_" + nm] = None if v is None else float(v)
            r = real(*a, **k)
            # without the compiled classes the one-element array of the solver stays an array
            G = a[0] if a else k["GRID"]
            G.set_node_temperature(0, float(np.asarray(G.get_node_temperature(0)).ravel()[0]))
            for nm, v in zip(cs.UST, r):
                cur["ust_" + nm] = number(v)
            return r
        return call

    def perc(real):
        def call(G, water, dt):
            cur["percolating"] = float(water)
            cur["runoff"] = float(real(G, water, dt))
            return cur["runoff"]
        return call

    def dens(real):
        def call(G, *a):
            r = real(G, *a)
            cur["end"] = getters(G)
            steps.append(dict(cur))
            cur.clear()
            return r
        return call
    exc = res = None
    max_layers = int(c.max_layers)
    data = dataset(inp)
    restart = restart_dataset(inp, max_layers) if inp["case"]["restart"] else None
    for nm, f in (("init_snowpack", starter("init")), ("load_snowpack", starter("load")), ("updateAlbedo", albedo), ("updateRoughness", one("z0")),
                  ("penetrating_radiation", pen), ("update_surface_temperature", surface), ("percolation", perc), ("refreezing", one("refrozen")),
                  ("densification", dens)):
        patch(nm, f)
    forcing = copy.deepcopy(inp["forcing"])
    try:
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"), time_limit(60):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = m.cosipy_core(data, 3, 7, GRID_RESTART=restart)
    except Timeout:
        exc = "Timeout"
    except Exception as e:  # noqa: BLE001
        import traceback
        exc, env.last_exc = type(e).__name__, repr(e) + traceback.format_exc()[-600:]
        # a callee's refusal (too few layers for the heat equation) is not this function's
        where = traceback.extract_tb(e.__traceback__)[-1].filename
        if exc == "ValueError" and where.endswith("cosipy_core.py") and "broadcast" not in str(e):
            exc = "own ValueError"
    finally:
        for nm, f in saved.items():
            setattr(m, nm, f)
    if exc:
        return [], None, exc
    res = dict(zip(cs.RESULT, res))
    mult = float(c.mult_factor_RRR)
    return ([Step(inp, t, res, g, mult) for t, g in enumerate(steps)], Final(res, getters(grid[0]), started, inp), None)
