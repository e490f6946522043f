"""run_cosipy and IOClass on small domains, with a stand-in cluster (jobs run in place, completion
order drawn by us) and a stand-in for the per-cell model whose results say where they come from."""
import contextlib
import io
import math
import os
import tempfile
import types

import numpy as np

from specs import core_specs as cs
from specs import output_specs as os_
from .env import time_limit, Timeout


def value(nm, y, x, t=0, l=0):
    return os_.CODE[nm] * 100000 + y * 1000 + x * 50 + t + l / 64


def forcing(y, x, t):
    return y * 1000 + x * 50 + t


def gen(rng):
    ny, nx, nt = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3)
    pick = lambda names: [n for n in names if rng.random() < rng.choice([0.5, 0.9])]
    full = {"atm": list(os_.ATM), "internal": list(os_.INTERNAL), "full": list(os_.FULL)}
    sel = full if rng.random() < 0.4 else {k: pick(v) for k, v in full.items()}
    for v in sel.values():
        rng.shuffle(v)
    mask = [[rng.choice([0, 1, 1, math.nan if rng.random() < 0.5 else 1]) for _ in range(nx)] for _ in range(ny)]
    wrf = rng.random() < 0.3
    cells = [(y, x) for y in range(ny) for x in range(nx) if mask[y][x] == 1]
    order = list(range(len(cells)))
    rng.shuffle(order)
    return {"args": {}, "ny": ny, "nx": nx, "nt": nt, "sel": sel, "mask": mask, "order": order, "wrf": wrf,
            "full_field": rng.random() < 0.6, "restart": rng.random() < 0.5, "max_layers": rng.choice([3, 7]),
            "inputs": rng.choice([["RRR", "N"], ["RRR"], ["N", "SNOWFALL"], []]), "atm_inputs": rng.random() < 0.5,
            "unknown": rng.random() < 0.5}


def dataset(inp, forc=forcing):
    import pandas as pd
    import xarray as xr
    ny, nx, nt = inp["ny"], inp["nx"], inp["nt"]
    d = ("south_north", "west_east") if inp["wrf"] else ("lat", "lon")
    ds = xr.Dataset()
    ds.coords["time"] = pd.date_range("2009-01-01", periods=nt, freq="1h")
    if inp["wrf"]:
        ds.coords["lat"] = (d, np.add.outer(np.arange(ny), 0.01 * np.arange(nx)))
        ds.coords["lon"] = (d, np.add.outer(0.01 * np.arange(ny), np.arange(nx)))
    else:
        ds.coords["lat"] = np.arange(ny) + 30.0
        ds.coords["lon"] = np.arange(nx) + 90.0
    ds["MASK"] = (d, np.array(inp["mask"], float))
    ds["HGT"] = (d, np.zeros((ny, nx)))
    for k in ["T2", "RH2", "U2", "PRES", "G"] + inp["inputs"]:
        ds[k] = (("time",) + d, np.array([[[forc(y, x, t) for x in range(nx)] for y in range(ny)] for t in range(nt)], float))
    return ds


def restart_set(inp):
    import xarray as xr
    d = ("south_north", "west_east") if inp["wrf"] else ("lat", "lon")
    ds = xr.Dataset()
    ds["NLAYERS"] = (d, np.array([[value("RESTARTIN", y, x) for x in range(inp["nx"])] for y in range(inp["ny"])], float))
    return ds


class Job:
    def __init__(self, i, res):
        self.i, self.res = i, res

    def result(self):
        return self.res


def fill(c, nm, y, x, nt, ml):
    if nm.startswith("LAYER_"):
        return np.array([[value(nm, y, x, t, l) for l in range(ml)] for t in range(nt)], float)
    return np.array([value(nm, y, x, t) for t in range(nt)], float)


def check(get_env, inp):
    """-> status, clause, detail"""
    sel = inp["sel"]
    atm = list(sel["atm"]) + (["T2", "RH2", "U2", "RRR", "N", "G", "PRES"] if inp["atm_inputs"] else [])
    dims = ("south_north", "west_east") if inp["wrf"] else ("lat", "lon")
    env = get_env({"max_layers": inp["max_layers"]},
                  {"output_atm": ",".join(atm), "output_internal": ",".join(sel["internal"]), "output_full": ",".join(sel["full"][:1] + (["LW"] if inp["unknown"] else []) + sel["full"][1:]),
                   "full_field": inp["full_field"], "restart": inp["restart"], "WRF": inp["wrf"], "northing": dims[0], "easting": dims[1],
                   "stake_evaluation": False, "slurm_use": False, "tile": False, "WRF_X_CSPY": False})
    m = env.mod("COSIPY")
    iom = env.mod("cosipy.cpkernel.io")
    ny, nx, nt, ml = inp["ny"], inp["nx"], inp["nt"], inp["max_layers"]
    want = [(y, x) for y in range(ny) for x in range(nx) if inp["mask"][y][x] == 1]
    calls = []

    def core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_data=None):
        calls.append((int(indY), int(indX)))
        own = [float(v) for v in np.atleast_1d(DATA.T2.values)]
        if own != [forcing(indY, indX, t) for t in range(nt)]:
            raise AssertionError(f"cell {indY},{indX} is given other forcing: {own}")
        if (GRID_RESTART is not None) != inp["restart"]:
            raise AssertionError("restart state given or withheld wrongly")
        if GRID_RESTART is not None and float(GRID_RESTART.NLAYERS.values) != value("RESTARTIN", indY, indX):
            raise AssertionError(f"cell {indY},{indX} is given another cell's restart state")
        L = iom.IOClass(DATA).create_local_restart_dataset()
        for nm in cs.RESTART_SCALARS:
            L[nm].values[:] = value("R_" + nm, indY, indX)
        for nm in cs.RESTART_PROFILES:
            L[nm].values[0:ml - 1] = [value("R_" + nm, indY, indX, 0, l) for l in range(ml - 1)]
        d = {"indY": indY, "indX": indX, "RESTART": L, "stake_names": None, "stat": None, "df_eval": None}
        return tuple(d[nm] if nm in d else (fill(None, nm, indY, indX, nt, ml) if inp["full_field"] or not nm.startswith("LAYER_") else None)
                     for nm in cs.RESULT)

    class Client:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def submit(self, f, *a, **k):
            return Job(len(calls), f(*a, **k))

    def completed(futures):
        fs = list(futures)
        return iter([fs[i] for i in inp["order"] if i < len(fs)] + fs[len(inp["order"]):])
    patches = {"Client": Client, "as_completed": completed, "progress": lambda f: None, "cosipy_core": core,
               "Config": _Still(env.config), "Constants": _Still(env.constants)}
    saved = {k: getattr(m, k) for k in patches}
    data = dataset(inp)
    try:
        for k, v in patches.items():
            setattr(m, k, v)
        with contextlib.redirect_stdout(io.StringIO()), time_limit(60):
            IO = iom.IOClass(data)
            IO.ny, IO.nx, IO.time = ny, nx, nt
            IO.GRID_RESTART = restart_set(inp) if inp["restart"] else None
            R, S = IO.create_result_file(), IO.create_restart_file()
            m.run_cosipy(None, IO, data, R, S, [])
            R, S = IO.get_result(), IO.get_restart()
    except Timeout:
        return "fail", "the run ends", "no answer"
    except AssertionError as e:
        return "fail", "each cell is run with its own forcing and restart state", str(e)
    except Exception as e:  # noqa: BLE001
        import traceback
        return "fail", "the run completes", repr(e) + traceback.format_exc()[-500:]
    finally:
        for k, v in saved.items():
            setattr(m, k, v)
    if sorted(calls) != sorted(want):
        return "fail", "exactly the cells with mask 1 are run, each once", {"run": calls, "glacier": want}
    names = {n: n for n in sel["atm"] + sel["internal"]}
    names = {n: os_.POSITION.get(n, n) for n in names}
    if want:
        for out, src in names.items():
            if out not in R:
                return "fail", f"{out} is written when selected", None
            got = R[out].values
            if R[out].dims != ("time",) + dims or got.shape != (nt, ny, nx):
                return "fail", f"{out} has one value per time and cell", [list(R[out].dims), list(got.shape)]
            for y in range(ny):
                for x in range(nx):
                    exp = fill(None, src, y, x, nt, ml) if (y, x) in want else np.full(nt, np.nan)
                    if not np.array_equal(got[:, y, x], exp, equal_nan=True):
                        return "fail", f"{out} holds its own series at every cell", {"cell": [y, x], "got": got[:, y, x].tolist(), "expected": exp.tolist()}
        for f in sel["full"] if inp["full_field"] else []:
            out = "LAYER_" + f
            if out not in R or R[out].dims != ("time",) + dims + ("layer",):
                return "fail", f"{out} is written when selected", None
            got = R[out].values
            for y in range(ny):
                for x in range(nx):
                    exp = fill(None, out, y, x, nt, ml) if (y, x) in want else np.full((nt, ml), np.nan)
                    if not np.array_equal(got[:, y, x, :], exp, equal_nan=True):
                        return "fail", f"{out} holds its own profiles at every cell", {"cell": [y, x], "got": got[:, y, x].tolist(), "expected": exp.tolist()}
        for nm in list(cs.RESTART_SCALARS) + list(cs.RESTART_PROFILES):
            if nm not in S:
                return "fail", f"restart {nm} is written", None
            got = S[nm].values
            for y in range(ny):
                for x in range(nx):
                    inside = (y, x) in want
                    if nm in cs.RESTART_SCALARS:
                        exp = np.array(value("R_" + nm, y, x) if inside else np.nan)
                    else:
                        exp = np.array([value("R_" + nm, y, x, 0, l) if inside and l < ml - 1 else np.nan for l in range(ml)])
                    if not np.array_equal(got[y, x], exp, equal_nan=True):
                        return "fail", f"restart {nm} holds its own value at every cell", {"cell": [y, x], "got": np.asarray(got[y, x]).tolist(), "expected": exp.tolist()}
    extra = {v for v in R.data_vars if v in os_.ALL_OUT} - set(names) - {"LAYER_" + f for f in sel["full"]} - set(inp["inputs"])
    if extra:
        return "fail", "only selected variables are written", sorted(extra)
    return "ok", None, None


class _Still:
    """the configuration as set here: reading it again changes nothing"""

    def __init__(self, c):
        self.__dict__["_c"] = c

    def __call__(self):
        return self

    def __getattr__(self, k):
        return getattr(self._c, k)
