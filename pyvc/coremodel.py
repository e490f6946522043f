"""What cosipy_core sees of its surroundings, as contracts (see specs/core_specs.py)."""
import ast

import z3

from .values import *
from specs import core_specs as cs

MUTATORS = ("add_fresh_snow", "set_fresh_snow_props_update_time", "update_grid", "remove_melt_weq")
GETTERS = set(cs.PROFILES.values()) | {"get_total_snowheight", "get_total_height", "get_number_layers"}


def F(name):
    return z3.Function("gh_" + name, z3.IntSort(), z3.RealSort())


class Prof:
    """a profile of the column in a given state"""

    def __init__(self, getter, ver):
        self.getter, self.ver = getter, ver

    def term(self):
        return F("prof_" + self.getter)(self.ver)


class Rows(Arr):
    """[time, layer] array; row t is represented by the profile stored there"""

    def snap(self):
        r = Rows(self.n, self.at, self.tag + "#snap", self.kind, self.arange, self.islist, self.member)
        r.model = self.model
        return r

    def ext_setitem(self, I, i, v):
        if not (isinstance(i, tuple) and len(i) == 2 and isinstance(i[1], slice)):
            raise Unsupported("store into a layer field")
        check_slice(I, self.model, i[1], v)
        self.model.I = I
        I.arr_store(self, i[0], v.term())


def check_slice(I, model, s, v):
    if not isinstance(v, Prof):
        raise Unsupported("a layer field is assigned something that is not a profile of the column")
    if s.step is not None or not (s.start is None or s.start == 0):
        raise Unsupported("slice of a layer field")
    n = model.getter_value("get_number_layers", v.ver)
    I.ctx.oblige("a profile is stored in as many places as there are layers", zv(s.stop) == n if s.stop is not None else z3.BoolVal(False), kind="post")


class Values(Ext):
    """x.values of a scalar restart variable"""

    def __init__(self, target, name):
        self.t, self.nm = target, name

    def setitem(self, I, i, v):
        if isinstance(i, slice) and i.start is None and i.stop is None:
            self.t.vals[self.nm] = v
            return
        raise Unsupported("restart scalar store")


class RestartVar(Ext):
    def __init__(self, t, nm):
        self.t, self.nm = t, nm

    def get(self, I, name):
        if name == "values":
            return Values(self.t, self.nm) if self.nm in cs.RESTART_SCALARS else self
        return Ext.get(self, I, name)

    def setitem(self, I, i, v):
        if self.nm in cs.RESTART_SCALARS or not isinstance(i, slice):
            raise Unsupported("restart store")
        check_slice(I, self.t.model, i, v)
        self.t.vals[self.nm] = v


class RestartSet(Ext):
    def __init__(self, model):
        self.model, self.vals = model, {}

    def get(self, I, name):
        if name in cs.RESTART_SCALARS or name in cs.RESTART_PROFILES:
            return RestartVar(self, name)
        return Ext.get(self, I, name)

    def getitem(self, I, i):
        return self.get(I, i)


class Data(Ext):
    def __init__(self, model):
        self.m = model

    def contains(self, I, x):
        if x == "SLOPE":
            return z3.Bool("has_SLOPE")
        return x in cs.inputs_present(self.m.case)

    def get(self, I, name):
        if name == "time":
            return Opaque("time", {"values": self.m.series["T2"]})
        if name == "SLOPE":
            return Opaque("SLOPE", {"values": z3.Real("in_SLOPE")})
        if name in self.m.series:
            return Opaque(name, {"values": self.m.series[name]})
        return Ext.get(self, I, name)

    def getitem(self, I, i):
        return self.get(I, i)


class Model:
    def __init__(self, spec, o, case):
        self.spec, self.o, self.ctx, self.case = spec, o, o.ctx, case
        ctx = self.ctx
        self.I = ctx.interp
        self.nt = z3.Int("len_T2")
        ctx.assume(self.nt >= 1)
        self.ghost = {}
        self.series = {}
        for nm in sorted(cs.inputs_present(case)):
            fn = z3.Function("arg_" + nm, z3.IntSort(), z3.RealSort())
            self.series[nm] = ctx.register(Arr(self.nt, lambda i, fn=fn: fn(zv(i)), tag="in_" + nm))
        # physical inputs
        u2 = z3.Function("arg_U2", z3.IntSort(), z3.RealSort())
        ctx.assume(Forall(0, self.nt, lambda i: u2(zv(i)) >= 0))
        self.started = None
        self.restart_arg = Opaque("GRID_RESTART") if case["restart"] else None
        self.data = Data(self)
        self.indY, self.indX = z3.Int("arg_indY"), z3.Int("arg_indX")
        ctx.iteration_end = self.iteration_end

    # -------------------------------------------------------------- surroundings
    def getter_value(self, g, ver):
        if g == "get_number_layers":
            return z3.Function("gh_get_number_layers", z3.IntSort(), z3.IntSort())(ver)
        return F(g)(ver)

    def new_version(self):
        v = self.ctx.int("state")
        self.I.note_write(self.grid, "ver")
        self.grid.attrs["ver"] = v

    def make_grid(self):
        attrs = {"ver": self.ctx.int("state")}
        g = Obj("ColumnHandle", attrs, tag="column")

        def mutator(nm):
            def call(*a, **k):
                self.new_version()
                if nm == "remove_melt_weq":
                    self.ghost["removed"] = a[0]
                    r = self.ctx.real("lwc")
                    self.ghost["lwc_removed"] = r
                    return r
                if nm == "add_fresh_snow":
                    self.ghost["added_snow"] = a[0]
                    self.ghost["added_density"] = a[1]
                return None
            return call

        def getter(nm):
            def call(*a, **k):
                if nm in cs.PROFILES.values():
                    return Prof(nm, attrs["ver"])
                return self.getter_value(nm, attrs["ver"])
            return call
        attrs = g.attrs
        for nm in MUTATORS:
            attrs[nm] = mutator(nm)
        for nm in GETTERS:
            attrs[nm] = getter(nm)
        attrs["grid_check"] = lambda *a, **k: None
        attrs["get_fresh_snow_props"] = lambda: tuple(self.getter_value(p, attrs["ver"]) for p in cs.PROPS)
        self.ctx.heap[g.tag] = g
        self.grid = g
        return g

    def start(self, how, arg):
        self.started = (how, arg)
        return self.make_grid()

    def acts(self, names, n=None):
        """a callee that changes the column and returns arbitrary numbers"""
        def call(*a, **k):
            self.only_grid(a)
            self.new_version()
            vals = [self.ctx.real(x) for x in names]
            for x, v in zip(names, vals):
                self.ghost[x] = v
            return vals[0] if len(vals) == 1 else tuple(vals) if vals else None
        return call

    def only_grid(self, a):
        if not a or a[0] is not self.grid:
            raise Unsupported("callee not given the column")

    def percolation(self, grid, water, dt):
        self.only_grid([grid])
        self.new_version()
        self.ghost["percolating"] = water
        v = self.ghost["runoff"] = self.ctx.real("runoff")
        return v

    def penetrating(self, grid, sw, dt):
        self.only_grid([grid])
        self.new_version()
        a, b = self.ctx.real("subM"), self.ctx.real("Gpen")
        self.ghost.update(pen_subM=a, pen_G=b, pen_sw=sw)
        return a, b

    def surface(self, *args, **kw):
        f = self.I.get_function("cosipy.modules.surfaceTemperature", "update_surface_temperature")
        env = self.I.bind(f, list(args), kw)
        params = [p.arg for p in f.node.args.args]
        if env[params[0]] is not self.grid:
            raise Unsupported("surface energy balance not given the column")
        for nm, p in zip(cs.UST_ARGS, params[1:]):
            v = env[p]
            if v is not None:
                self.ghost["arg_" + nm] = v
            self.ghost["has_" + nm] = z3.RealVal(0 if v is None else 1)
        # the surface energy balance leaves the layers alone but may change the grid handle
        self.new_version()
        vals = [self.ctx.real(x) for x in cs.UST]
        for x, v in zip(cs.UST, vals):
            self.ghost["ust_" + x] = v
        return tuple(vals)

    def io_class(self, *a, **k):
        return Opaque("IO", {"create_local_restart_dataset": self.make_restart})

    def make_restart(self):
        self.restart = RestartSet(self)
        return self.restart

    def arr1(self, nt):
        return self.ctx.register(Arr(nt, self.ctx.func("out"), tag=self.ctx.alloc_tag("out")))

    def arr2(self, nt, layers):
        if not self.case["full_field"]:
            return None
        r = Rows(nt, self.ctx.func("rows"), tag=self.ctx.alloc_tag("rows"))
        r.model = self
        return self.ctx.register(r)

    def globals(self):
        o = self.o
        return {
            "Config": o.obj("Config0", WRF_X_CSPY=False, full_field=self.case["full_field"], force_use_TP=self.case["TP"],
                            force_use_N=self.case["forceN"], stake_evaluation=False, restart=self.case["restart"]),
            "init_snowpack": lambda d: self.start("init", d), "load_snowpack": lambda d: self.start("load", d),
            "IOClass": self.io_class, "updateAlbedo": self.acts(("alpha", "albedo_snow")), "updateRoughness": self.acts(("z0",)),
            "penetrating_radiation": self.penetrating, "update_surface_temperature": self.surface, "percolation": self.percolation,
            "refreezing": self.acts(("refrozen",)), "solveHeatEquation": self.acts(()), "densification": self.acts(()),
            "init_nan_array_1d": self.arr1, "init_nan_array_2d": self.arr2,
        }

    def call_args(self):
        return [self.data, self.indY, self.indX, self.restart_arg]

    def may_raise(self, kind):
        return z3.BoolVal(kind == "ValueError")

    # -------------------------------------------------------------- history
    def iteration_end(self, L, k):
        for nm, v in self.ghost.items():
            if isinstance(v, (int, float)) or is_num(v):
                self.ctx.assume(F(nm)(k) == zr(v))
        self.ctx.assume(z3.Function("gh_endver", z3.IntSort(), z3.IntSort())(k) == self.grid.attrs["ver"])
        self.ghost.clear()

    def endver(self, t):
        return z3.Function("gh_endver", z3.IntSort(), z3.IntSort())(zv(t))

    def names(self):
        """local variable at each position of the result"""
        fv = self.I.get_function(self.spec.module, self.spec.qual)
        rets = [n for n in ast.walk(fv.node) if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == len(cs.RESULT)]
        if not rets:
            raise Unsupported("no result tuple of the expected length")
        last = max(rets, key=lambda n: n.lineno)
        return {nm: e.id for nm, e in zip(cs.RESULT, last.value.elts) if isinstance(e, ast.Name)}

    def invariants(self, L, clauses):
        if not L.counted:
            return
        names = self.names()
        env = L.L.env
        ver = lambda: self.grid.attrs["ver"]
        yield "column state is the last step's", lambda: z3.Implies(zv(L.k) > zv(L.lo), self.endver(zv(L.k) - 1) == ver())

        for nm, a in self.series.items():
            fn = z3.Function("arg_" + nm, z3.IntSort(), z3.RealSort())
            yield f"{nm} is not changed ahead of time", lambda a=a, fn=fn: (lambda g: Forall(L.k, self.nt, lambda i: g(i) == fn(zv(i))))(a.at)

        if self.case["precip"] == "snow":
            # without total precipitation the rain carried from step to step is nothing
            fv = self.I.get_function(self.spec.module, self.spec.qual)
            for n in ast.walk(fv.node):
                if (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript)
                        and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == names.get("RAIN")
                        and isinstance(n.value, ast.Name) and is_num(L.L.entry_env.get(n.value.id))):
                    yield "rain carried over is zero", lambda v=n.value.id: zr(env[v]) == 0

        def arrays():
            return {nm: env[v].snap() for nm, v in names.items() if isinstance(env.get(v), Arr)}
        cl = clauses(self.o, Step(self, arrays(), z3.Int("t!probe")))
        for j, (nm, _) in enumerate(cl):
            def thunk(j=j):
                arr = arrays()
                return Forall(L.lo, L.k, lambda t: clauses(self.o, Step(self, arr, t))[j][1])
            yield nm, thunk

    def post(self, res, clauses):
        arr = {nm: v for nm, v in zip(cs.RESULT, res) if isinstance(v, Arr)} if isinstance(res, tuple) and len(res) == len(cs.RESULT) else {}
        if not arr:
            return [("the result has one value per position", z3.BoolVal(False))]
        out = [(f"{nm} has one value per step", zv(a.n) == self.nt) for nm, a in arr.items()]
        cl = clauses(self.o, Step(self, arr, z3.Int("t!probe")))
        for j, (nm, _) in enumerate(cl):
            out.append((nm, Forall(0, self.nt, lambda t, j=j: clauses(self.o, Step(self, arr, t))[j][1])))
        return out

    def final(self, res):
        return Final(self, res)


class Step:
    """results, ghosts and inputs of step t"""

    def __init__(self, m, arr, t):
        self.m, self.arr, self.t = m, arr, zv(t)
        mult = m.o.const("mult_factor_RRR")
        c = m.case
        use_snow = c["precip"] in ("both", "snow") and not c["TP"]
        self.snow_in = self.inp("SNOWFALL") * mult if use_snow else None
        self.total = self.inp("RRR") * mult if c["precip"] in ("both", "total") else None
        self.T2, self.U2 = self.inp("T2"), self.inp("U2")
        self.full_field = c["full_field"]

    def __getitem__(self, nm):
        a = self.arr.get(nm)
        if a is None:
            raise Unsupported(f"no series {nm}")
        return zr(a.at(self.t))

    def inp(self, nm):
        return z3.Function("arg_" + nm, z3.IntSort(), z3.RealSort())(self.t)

    def g(self, nm):
        return F(nm)(self.t)

    def at_end(self, g):
        return zr(self.m.getter_value(g, self.m.endver(self.t)))

    def swnet(self):
        return self.m.o.max(self.inp("G"), self.m.o.num(0)) * (1 - self["ALBEDO"])

    def sw_residual(self):
        n = self.swnet()
        return z3.If(n > 0, n - self.g("pen_G"), n)

    def subsurface_melt(self):
        return z3.If(self.swnet() > 0, self.g("pen_subM"), z3.RealVal(0))

    def profile_is(self, nm, g):
        a = self.arr.get(nm)
        if a is None:
            return z3.BoolVal(False)
        return zr(a.at(self.t)) == F("prof_" + g)(self.m.endver(self.t))

    def lw_args(self):
        c, o = self.m.case, self.m.o
        useL = c["lw"] in ("both", "LWin") and not c["forceN"]
        useN = c["lw"] in ("both", "N")
        out = []
        for nm, use in (("LWin", useL), ("N", useN)):
            out.append(self.g("has_" + nm) == (1 if use else 0))
            if use:
                out.append(self.g("arg_" + nm) == self.inp(nm))
        return z3.And(*out)

    def slope(self):
        return z3.If(z3.Bool("has_SLOPE"), z3.Real("in_SLOPE"), z3.RealVal(0))


class Final:
    def __init__(self, m, res):
        self.m, self.res = m, res
        self.ver = m.grid.attrs["ver"]

    def indices_own(self):
        return z3.And(zv(self.res[0]) == self.m.indY, zv(self.res[1]) == self.m.indX) if isinstance(self.res, tuple) else z3.BoolVal(False)

    def saved(self):
        r = self.res[2] if isinstance(self.res, tuple) else None
        return r.vals if isinstance(r, RestartSet) else {}

    def saved_scalar(self, nm, g):
        v = self.saved().get(nm)
        return zr(v) == zr(self.m.getter_value(g, self.ver)) if is_num(v) else z3.BoolVal(False)

    def saved_profile(self, nm, g):
        v = self.saved().get(nm)
        return v.term() == F("prof_" + g)(self.ver) if isinstance(v, Prof) else z3.BoolVal(False)

    def started_right(self):
        m = self.m
        want = ("load", m.restart_arg) if m.case["restart"] else ("init", m.data)
        return z3.BoolVal(m.started is not None and m.started[0] == want[0] and m.started[1] is want[1])
