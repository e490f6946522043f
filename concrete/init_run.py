"""init_snowpack / load_snowpack / create_grid_jitted executed on random inputs."""
import math
from types import SimpleNamespace as NS

import numpy as np

from specs.base import NumOps, num_col, rand_column, rand_props, density
from specs import initial_specs as ini


def _col(env, g):
    o = NumOps(env.const_dict())
    ls = env.layers(g)
    return o, num_col(o, ls, int(g.number_nodes), env.props(g))


def _env(get_env, inp):
    env = get_env(inp.get("consts") or {}, inp.get("config"))
    return env, env.mod(ini.INIT)


def verdict(clauses):
    for nm, g in clauses:
        if not bool(g):
            return "fail", nm, None
    return "ok", None, None


def check_new(spec, get_env, inp):
    saved = (inp.get("consts") or {}).get("saved", True)
    env, m = _env(get_env, {})
    a = NS(**inp["args"])
    A = type("A", (), {"__getitem__": lambda s, k: inp["args"][k], "__getattr__": lambda s, k: inp["args"][k]})()
    arr = [np.array(inp["args"][n], float) for n in ini.ARRS]
    rho = arr[1]
    if not saved and ((rho < 1.1).any() or (rho > 917).any()):
        return "skip", "densities", None
    g = m.create_grid_jitted(*(arr + [getattr(a, b) for b in ini.BOOK] if saved else arr[:4] + [None] * 4))
    o, c = _col(env, g)
    return verdict(spec.clauses(o, c, A, saved))


def gen_load(rng):
    n = rng.choice([1, 2, 3, 7, 40])
    return {"args": {}, "layers": rand_column(rng, n, n), "props": rand_props(rng), "coupler": rng.random() < 0.3, "consts": {},
            "pad": rng.choice([0, 1, 200])}


def check_load(get_env, inp):
    from . import core_run
    if "layers" not in inp or not inp["layers"]:
        return "skip", "no concrete state", None
    env, m = _env(get_env, inp)
    n = len(inp["layers"])
    if inp["coupler"]:
        d = core_run.restart_dataset({"restart": inp}, n + inp["pad"])
        b = {k: NS(values=np.array(v)) for k, v in zip(ini.BOOK, inp["props"])}
        src = NS(**{k: NS(values=d[k].values) for k in d.data_vars if not k.startswith(("NEWSNOW", "OLDSNOW"))}, **b)
    else:
        src = core_run.restart_dataset({"restart": inp}, n + inp["pad"])
    g = m.load_snowpack(src)
    o, c = _col(env, g)
    L = inp["layers"]
    out = [("number of layers", c.n == n and c.number_nodes == n)]
    for j, f in enumerate(("height", "temperature", "liquid_water_content", "ice_fraction")):
        out.append((f"every layer's {f}", c.n == n and all(c._get(f, i) == L[i][j] for i in range(n))))
    out.append(("the fresh-snow bookkeeping", [c.nsh, c.nst, c.ost] == [float(x) for x in inp["props"]]))
    return verdict(out)


def gen_init(rng):
    kind = rng.choice(["given", "given", "missing", "configured"])
    snow = rng.choice([0.0, rng.uniform(0, 0.12), 0.1, 0.2, 0.5, rng.uniform(0, 0.6), rng.uniform(0, 12)])
    hl = rng.choice([0.5, 0.3, 1.0, rng.uniform(0.05, 2)])
    return {"args": {}, "kind": kind, "snow": snow, "T2": [rng.uniform(230, 290)] * 2,
            "consts": {"initial_snowheight_constant": snow if kind == "configured" else rng.choice([0.0, 0.2, 3.0]),
                       "initial_glacier_height": rng.choice([10.0, hl, hl * rng.randint(1, 60), max(hl, rng.uniform(0.5, 40))]),
                       "initial_glacier_layer_heights": hl, "temperature_bottom": rng.uniform(250, 273.16),
                       "initial_top_density_snowpack": rng.choice([300.0, rng.uniform(50, 800)]),
                       "initial_bottom_density_snowpack": rng.choice([600.0, rng.uniform(50, 850)])}}


class _Data:
    """a cell's forcing"""

    def __init__(self, d):
        self.__dict__.update({k: NS(values=v) for k, v in d.items()})

    def __contains__(self, k):
        return k in self.__dict__


def check_init(get_env, inp):
    if "kind" not in inp:
        return "skip", "no concrete state", None
    env, m = _env(get_env, inp)
    c_ = env.const_dict()
    d = {"T2": np.array(inp["T2"])}
    if inp["kind"] == "given":
        d["SNOWHEIGHT"] = np.array(inp["snow"])
    elif inp["kind"] == "missing":
        d["SNOWHEIGHT"] = np.array(math.nan)
    snow = 0.0 if inp["kind"] == "missing" else inp["snow"]
    g = m.init_snowpack(_Data(d))
    o, c = _col(env, g)
    n, ice = c.n, c_["ice_density"]
    hl, H, bot = c_["initial_glacier_layer_heights"], c_["initial_glacier_height"], c_["temperature_bottom"]
    top = min(inp["T2"][0], c_["zero_temperature"])
    nice = n
    while nice > 0 and abs(density(o, c.f(nice - 1), o.num(0)) - ice) <= 0.02 and abs(c.h(nice - 1) - hl) < 1e-9:
        nice -= 1
    s = nice                       # number of snow layers
    th = sum(c.h(i) for i in range(s))
    rt, rb = c_["initial_top_density_snowpack"], c_["initial_bottom_density_snowpack"]
    lo, hi = min(top, bot) - 1e-9, max(top, bot) + 1e-9
    dT = (top - bot) / (snow + H)
    k = H / hl
    return verdict([
        ("at least one layer, counted", n >= 1 and c.number_nodes == n),
        ("total snow thickness equals the initial snow height", abs(th - snow) <= 1e-9 * (1 + snow)),
        ("the glacier has the configured height up to one layer", int(k * (1 - 1e-12)) <= n - s <= int(k * (1 + 1e-12))),
        ("ice layers have ice density", all(abs(density(o, c.f(i), 0.0) - ice) <= 0.02 for i in range(s, n))),
        ("ice layers have the configured thickness", all(abs(c.h(i) - hl) <= 1e-9 for i in range(s, n))),
        ("snow densities lie between top and bottom density",
         all(min(rt, rb) - 0.02 <= density(o, c.f(i), 0.0) <= max(rt, rb) + 0.02 for i in range(s))),
        ("no layer contains liquid water", all(c.w(i) == 0 for i in range(n))),
        ("temperatures stay within the range", all(lo <= c.T(i) <= hi for i in range(n))),
        ("temperatures run linearly with depth", all(abs((c.T(i) - c.T(i + 1)) - dT * c.h(i + 1)) <= 1e-8 for i in range(n - 1))),
        ("the topmost temperature is that of its depth", min(top, top - dT * c.h(0)) - 1e-8 <= c.T(0) <= max(top, top - dT * c.h(0)) + 1e-8),
        ("fresh-snow bookkeeping starts at zero", c.nsh == 0 and c.nst == 0 and c.ost == 0),
    ])
