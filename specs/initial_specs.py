"""C17, C18: building a column, from scratch and from a saved state (cosipy/cpkernel/init.py)."""
from .base import *

INIT = "cosipy.cpkernel.init"
ARRS = ("layer_heights", "layer_density", "layer_T", "layer_LWC", "layer_IF")
BOOK = ("new_snow_height", "new_snow_timestamp", "old_snow_timestamp")


class NewGrid(Spec):
    """create_grid_jitted, Grid.__init__, Grid.init_grid, Node.__init__: one layer per entry, every field from its own entry"""
    prop, module, qual, has_grid = ("C17", "C18"), INIT, "create_grid_jitted", False
    args = tuple((a, "vec") for a in ARRS) + tuple((b, "real") for b in BOOK)
    vec_len = {a: "layer_heights" for a in ARRS}
    functionals = ()
    auto_invariants = False
    cases = ({"saved": True}, {"saved": False})
    base_consts = {"saved": True}
    search_seconds = 0

    def sym_call_args(self, grid, a):
        if self.saved:
            return [a[n] for n in ARRS + BOOK]
        return [a[n] for n in ARRS[:4]] + [None] * 4

    def module_globals(self, o, a):
        if o.symbolic:
            self.saved = o.const("saved")
        return {}

    def requires(self, o, old, a):
        if not o.symbolic:
            return []
        ra, ri = o.const("air_density"), o.const("ice_density")
        rho = o.seq(a.layer_density)
        return [("densities between air and ice", o.forall(0, rho.n, lambda i: o.and_(o.le(ra, rho.at(i)), o.le(rho.at(i), ri))))]

    def clauses(self, o, c, a, saved):
        x = {n: o.seq(a[n]) for n in ARRS if saved or n != "layer_IF"}
        n = x["layer_heights"].n
        out = [("one layer per entry", o.and_(o.ieq(c.n, n), o.ieq(c.number_nodes, n))),
               ("every layer's thickness", o.forall(0, n, lambda i: o.eq(c.h(i), x["layer_heights"].at(i)))),
               ("every layer's temperature", o.forall(0, n, lambda i: o.eq(c.T(i), x["layer_T"].at(i)))),
               ("every layer's liquid water content", o.forall(0, n, lambda i: o.eq(c.w(i), x["layer_LWC"].at(i)))),
               ("nothing has refrozen yet", o.forall(0, n, lambda i: o.eq(c.r(i), o.num(0))))]
        if saved:
            out += [("every layer's ice fraction", o.forall(0, n, lambda i: o.eq(c.f(i), x["layer_IF"].at(i)))),
                    ("the fresh-snow bookkeeping", o.and_(o.eq(c.nsh, a.new_snow_height), o.eq(c.nst, a.new_snow_timestamp),
                                                          o.eq(c.ost, a.old_snow_timestamp)))]
        else:
            rd, tol = x["layer_density"], o.num(0.01)
            dry = lambda i: density(o, c.f(i), o.num(0))
            out += [("every layer has the ice content of its dry density", o.forall(0, n, lambda i: o.and_(
                        o.le(dry(i), rd.at(i) + tol), o.le(rd.at(i), dry(i) + tol)))),
                    ("ice fractions are fractions", o.forall(0, n, lambda i: o.and_(o.le(o.num(0), c.f(i)), o.le(c.f(i), o.num(1))))),
                    ("the fresh-snow bookkeeping starts at zero", o.and_(o.eq(c.nsh, o.num(0)), o.eq(c.nst, o.num(0)), o.eq(c.ost, o.num(0))))]
        return out

    def ensures(self, o, old, new, a, res):
        if not o.symbolic:
            return self.clauses(o, res, a, a.saved)
        from pyvc.prove import view
        return self.clauses(o, view(res), a, self.saved)

    def invgen(self, o, L):
        if L.func != "Grid.init_grid" or not L.counted:
            return
        for lst, _ in L.L.lists():
            x = {n: o.seq(L.args[n]) for n in ARRS}
            k = lambda: L.L.k
            yield "layers so far", lambda: o.ieq(lst.n, k())
            src = {"height": "layer_heights", "temperature": "layer_T", "liquid_water_content": "layer_LWC"}
            if self.saved:
                src["ice_fraction"] = "layer_IF"
            for f, nm in src.items():
                yield f + " so far", lambda f=f, nm=nm: (lambda s: o.forall(0, k(), lambda i: o.eq(s.get(f, i), x[nm].at(i))))(lst.snap())
            yield "refreeze so far", lambda: (lambda s: o.forall(0, k(), lambda i: o.eq(s.get("refreeze", i), o.num(0))))(lst.snap())
            if not self.saved:
                ra, ri = o.const("air_density"), o.const("ice_density")
                yield "ice content so far", lambda: (lambda s: o.forall(0, k(), lambda i: o.eq(
                    s.get("ice_fraction", i) * ri, x["layer_density"].at(i) - ra + o.div(x["layer_density"].at(i), ri) * ra)))(lst.snap())

    def gen(self, rng):
        return None

    def check_concrete(self, get_env, inp):
        from concrete import init_run
        return init_run.check_new(self, get_env, inp)


class _Init(Spec):
    module, has_grid, functionals, auto_invariants = INIT, False, (), False
    search_seconds = 12

    def sym_call_args(self, grid, a):
        return self.m.call_args()

    def module_globals(self, o, a):
        if not o.symbolic:
            return {}
        from pyvc import initmodel
        self.m = getattr(initmodel, self.model)(self, o)
        return self.m.globals()

    def ensures(self, o, old, new, a, res):
        return self.m.post(res)


class LoadSnowpack(_Init):
    """the column of a saved state: exactly its layers and its bookkeeping, from the file's or the coupler's names"""
    prop, qual, model = "C17", "load_snowpack", "LoadModel"
    cases = ({"names": "file"}, {"names": "coupler"})

    def gen(self, rng):
        from concrete import init_run
        return init_run.gen_load(rng)

    def check_concrete(self, get_env, inp):
        from concrete import init_run
        return init_run.check_load(get_env, inp)


class InitSnowpack(_Init):
    """the initial column"""
    prop, qual, model = "C18", "init_snowpack", "InitModel"
    cases = ({"snow": "given"}, {"snow": "missing"}, {"snow": "configured"})
    sym_consts = ("initial_snowheight_constant", "initial_glacier_height", "initial_glacier_layer_heights", "temperature_bottom",
                  "initial_top_density_snowpack", "initial_bottom_density_snowpack")

    def const_requires(self, o):
        c = o.const
        return [("non-negative snow height", o.sle(o.num(0), c("initial_snowheight_constant"))),
                ("at least one glacier layer", o.and_(o.pos(c("initial_glacier_layer_heights")), o.sle(c("initial_glacier_layer_heights"), c("initial_glacier_height")))),
                ("bottom temperature", o.and_(o.pos(c("temperature_bottom")), o.sle(c("temperature_bottom"), c("zero_temperature")))),
                ("densities", o.and_(o.sle(c("air_density"), c("initial_top_density_snowpack")),
                                     o.sle(c("air_density"), c("initial_bottom_density_snowpack")),
                                     o.sle(c("initial_top_density_snowpack"), c("ice_density")),
                                     o.sle(c("initial_bottom_density_snowpack"), c("ice_density"))))]

    def gen(self, rng):
        from concrete import init_run
        return init_run.gen_init(rng)

    def check_concrete(self, get_env, inp):
        from concrete import init_run
        return init_run.check_init(get_env, inp)
