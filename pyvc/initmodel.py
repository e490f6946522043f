"""What init_snowpack and load_snowpack see of their surroundings, as contracts."""
import z3

from .values import *
from .interp import PyRaise
from specs import initial_specs as ini
from specs import core_specs as cs


class Values(Ext):
    def __init__(self, v):
        self.v = v

    def get(self, I, name):
        if name == "values":
            return self.v
        return Ext.get(self, I, name)


class Data(Ext):
    def __init__(self, items):
        self.vals = items

    def get(self, I, name):
        if name in self.vals:
            return Values(self.vals[name])
        raise PyRaise("AttributeError", name)

    def getitem(self, I, name):
        return self.get(I, name)

    def contains(self, I, name):
        return name in self.vals


class GridResult(Ext):
    """the column create_grid_jitted builds (its contract: NewGrid)"""

    def __init__(self, args):
        self.args = args


class _Model:
    def __init__(self, spec, o):
        self.spec, self.o, self.ctx = spec, o, o.ctx
        self.lib = self.ctx.interp.lib

    def globals(self):
        def create(*a, **k):
            b = dict(zip(ini.ARRS + ini.BOOK, a))
            b.update(k)
            return GridResult(b)
        return {"create_grid_jitted": create}

    def series(self, name, n):
        f = z3.Function("in_" + name, z3.IntSort(), z3.RealSort())
        return self.ctx.register(Arr(n, lambda i: f(zv(i)), tag="in_" + name))


class LoadModel(_Model):
    BOOKNAMES = {"file": ("NEWSNOWHEIGHT", "NEWSNOWTIMESTAMP", "OLDSNOWTIMESTAMP"), "coupler": ("new_snow_height", "new_snow_timestamp", "old_snow_timestamp")}

    def call_args(self):
        o = self.o
        self.n, self.max = z3.Int("in_NLAYERS"), z3.Int("in_max_layers")
        self.ctx.assume(z3.And(self.n >= 1, self.n <= self.max))
        self.ctx.note_index(self.n)
        self.arr = {nm: self.series(nm, self.max) for nm in cs.RESTART_PROFILES}
        d = dict(self.arr)
        d["NLAYERS"] = z3.ToReal(self.n)
        self.book = [z3.Real("in_" + b) for b in ini.BOOK]
        d.update(zip(self.BOOKNAMES[o.const("names")], self.book))
        return [Data(d)]

    def post(self, res):
        o = self.o
        if not isinstance(res, GridResult):
            return [("a new column is returned", z3.BoolVal(False))]
        b = res.args
        src = {"layer_heights": "LAYER_HEIGHT", "layer_T": "LAYER_T", "layer_LWC": "LAYER_LWC", "layer_IF": "LAYER_IF", "layer_density": "LAYER_RHO"}
        out = []
        for a, nm in src.items():
            v = b.get(a)
            if not isinstance(v, Arr):
                out.append((f"the layers' {nm} is loaded", z3.BoolVal(False)))
                continue
            x = self.arr[nm]
            out.append((f"the layers' {nm}: one value per saved layer", zv(v.n) == self.n))
            out.append((f"the layers' {nm} is loaded", o.forall(0, self.n, lambda i, v=v, x=x: zr(v.at(i)) == zr(x.at(i)))))
        for a, w in zip(ini.BOOK, self.book):
            v = b.get(a)
            out.append((f"{a} is loaded", zr(v) == w if is_num(v) else z3.BoolVal(False)))
        return out


class InitModel(_Model):
    def call_args(self):
        o, ctx = self.o, self.ctx
        d = {}
        kind = o.const("snow")
        if kind == "given":
            self.snow = z3.Real("in_SNOWHEIGHT")
            ctx.assume(self.snow >= 0)
            d["SNOWHEIGHT"] = self.snow
        elif kind == "missing":
            self.snow = z3.RealVal(0)
            d["SNOWHEIGHT"] = NAN
        else:
            self.snow = zr(o.const("initial_snowheight_constant"))
        nt = z3.Int("in_nt")
        ctx.assume(nt >= 1)
        t2 = self.series("T2", nt)
        ctx.assume(zr(t2.at(0)) > 0)
        d["T2"] = t2
        zero = zr(o.const("zero_temperature"))
        self.top = z3.If(zr(t2.at(0)) < zero, zr(t2.at(0)), zero)
        return [Data(d)]

    def post(self, res):
        o, snow = self.o, self.snow
        if not isinstance(res, GridResult):
            return [("a new column is returned", z3.BoolVal(False))]
        b = res.args
        if not all(isinstance(b.get(a), Arr) for a in ini.ARRS[:4]):
            return [("the column is built from thickness, density, temperature and water", z3.BoolVal(False))]
        h, rho, T, w = (b[a] for a in ini.ARRS[:4])
        c = lambda nm: zr(o.const(nm))
        H, hl, bot, top = c("initial_glacier_height"), c("initial_glacier_layer_heights"), c("temperature_bottom"), self.top
        rt, rb = c("initial_top_density_snowpack"), c("initial_bottom_density_snowpack")
        want = z3.ToInt(z3.If(snow * 10 < 5, snow * 10, z3.RealVal(5)))
        k = z3.If(snow <= 0, 0, z3.If(want == 0, 1, want))
        n = zv(h.n)
        dT = (top - bot) / (snow + H)
        lo, hi = z3.If(top < bot, top, bot), z3.If(top < bot, bot, top)
        first = T.at(0)
        between = lambda x, a, e: z3.And(x >= z3.If(a < e, a, e), x <= z3.If(a < e, e, a))
        return [
            ("all profiles have the same length", z3.And(zv(rho.n) == n, zv(T.n) == n, zv(w.n) == n)),
            ("snow layers on top of the glacier", z3.And(n == k + z3.ToInt(H / hl), n >= 1)),
            ("the snow layers add up to the initial snow height", o.forall(0, k, lambda i: zr(h.at(i)) * z3.ToReal(k) == snow)),
            ("ice layers have the configured thickness", o.forall(k, n, lambda i: zr(h.at(i)) == hl)),
            ("ice layers have ice density", o.forall(k, n, lambda i: zr(rho.at(i)) == c("ice_density"))),
            ("snow densities lie between top and bottom density", o.forall(0, k, lambda i: between(zr(rho.at(i)), rt, rb))),
            ("no liquid water", o.forall(0, n, lambda i: zr(w.at(i)) == 0)),
            ("the topmost temperature is that of its depth", between(zr(first), top, top - dT * zr(h.at(0)))),
            ("temperatures run linearly with depth", o.forall(0, n - 1, lambda i: zr(T.at(i)) - zr(T.at(i + 1)) == dT * zr(h.at(i + 1)))),
            ("temperatures stay within the range", o.forall(0, n, lambda i: z3.And(zr(T.at(i)) >= lo, zr(T.at(i)) <= hi))),
            ("no ice fractions are given", z3.BoolVal(b.get("layer_IF") is None)),
            ("the fresh-snow bookkeeping starts at zero", z3.BoolVal(any(b.get(a) is None for a in ini.BOOK))),
        ]
