"""C03: remeshing (cosipy/cpkernel/grid.py)"""
from .base import *
from .grid_specs import GRID, MASS, RFRAME, RANGE_GHOSTS, in_range, is_snow, well_formed, range_ghosts, MergeNodes, CorrectLayer


class SnowLayerCount(Spec):
    """how many layers count as snow, for any column"""
    module, qual, prop = GRID, "Grid.get_number_snow_layers", "C03"
    result = "int"
    functionals = ()
    pure = True              # a function of the column
    search_seconds = 1

    def pivots(self, o, old, a):
        return [old.n - 1, old.n - 2]

    def ensures(self, o, old, new, a, res):
        tail = o.and_(old.n >= 2, o.not_(is_snow(o, old, old.n - 1)), o.not_(is_snow(o, old, old.n - 2)))
        return [("between none and all", o.and_(o.le(0, res), o.le(res, old.n))),
                ("two ice layers at the bottom do not count", o.implies(tail, o.le(res, old.n - 2)))]

    def gen(self, rng):
        return {"layers": rand_column(rng, 1, 8), "props": rand_props(rng), "args": {}}


    def value(self, o, c):
        return sum(1 for i in range(c.n) if is_snow(o, c, i))


COUNT = SnowLayerCount()


class SnowTotal(Spec):
    """the snow height, for any column"""
    module, qual, prop = GRID, "Grid.get_total_snowheight", "C03"
    result = "real"
    functionals = ("H",)
    pure = True
    uses = (COUNT,)
    search_seconds = 1

    def ensures(self, o, old, new, a, res):
        return [("between nothing and the column", o.and_(o.le(0, res), o.le(res, old.H))),
                ("no snow layers, no snow height", o.implies(o.le(o.pure(COUNT, new), 0), o.le(res, 0)))]

    def value(self, o, c):
        return sum(c.h(i) for i in range(COUNT.value(o, c)))

    def gen(self, rng):
        return COUNT.gen(rng)


SNOW = SnowTotal()


class AnyTotal(Spec):
    module, qual, prop = GRID, "Grid.get_total_height", "C03"
    result = "real"
    functionals = ("H",)
    search_seconds = 1

    def ensures(self, o, old, new, a, res):
        return [("sum of all thicknesses", o.eq(res, old.H))]

    def gen(self, rng):
        return COUNT.gen(rng)


class _Remesh(Spec):
    module, prop = GRID, "C03"
    modifies = ("#struct",)
    uses = (MergeNodes(), CorrectLayer(), COUNT, SNOW, AnyTotal())
    functionals = MASS
    ghosts = RANGE_GHOSTS
    sym_consts = ("first_layer_height", "layer_stretching", "minimum_snow_layer_height", "temperature_threshold_merging",
                  "density_threshold_merging", "merge_max")
    search_seconds = 10
    auto_invariants = False
    timeout_ms = 8000

    def const_requires(self, o):
        c = o.const
        return [("positive heights", o.and_(o.pos(c("first_layer_height")), o.pos(c("minimum_snow_layer_height")))),
                ("first layer not below the minimum", o.sle(c("minimum_snow_layer_height"), c("first_layer_height"))),
                ("stretching of at least 1", o.sle(o.num(1), c("layer_stretching")))]

    def ghost_values(self, o, old, a):
        return range_ghosts(old)

    def column(self, rng):
        n = rng.randint(3, 12)
        s = rng.randint(0, n - 2)
        c = rand_column(rng, n, n, snow_on_ice=True, snow=s)
        for l in c[s:]:
            l[0] = rng.choice([rng.uniform(0.02, 0.1), rng.uniform(0.1, 1.0), rng.uniform(1, 4)])
            l[2] = min(l[2], 1 - l[3])
        if rng.random() < 0.5:
            t, f = rng.uniform(255, 273), rng.uniform(0.2, 0.6)
            for l in c[:s]:
                l[1], l[3], l[2] = t + rng.uniform(0, 0.02), f + rng.uniform(0, 0.01), 0.0
                l[0] = rng.choice([l[0], 0.0005, 0.05])
        return c

    def gen(self, rng):
        return {"layers": self.column(rng), "props": rand_props(rng), "args": {},
                "consts": {"first_layer_height": rng.choice([0.01, 0.002, 0.05, 0.001]), "layer_stretching": rng.choice([1.2, 1.0, 1.5, rng.uniform(1, 2)]),
                           "minimum_snow_layer_height": rng.choice([0.001, 0.0005]), "temperature_threshold_merging": rng.choice([0.01, 1.0, 0.0]),
                           "density_threshold_merging": rng.choice([5.0, 50.0, 0.0]), "merge_max": rng.choice([1, 0, 5]),
                           "remesh_method": rng.choice(["log_profile", "adaptive_profile"]) if self.method is None else self.method}}
    method = None

    def snowheight(self, o, old):
        """thickness of the layers below the snow-ice threshold"""
        return sum(old.h(i) for i in range(old.n) if is_snow(o, old, i)) if not o.symbolic else None

    def bottom(self, o, c):
        n = c.n
        return [("two ice layers at the bottom", o.and_(n >= 2, o.not_(is_snow(o, c, n - 1)), o.not_(is_snow(o, c, n - 2)))),
                ("at least the first layer's height in them", o.le(o.const("first_layer_height"), c.h(n - 1) + c.h(n - 2)))]

    def requires(self, o, old, a):
        yield from valid_layers(o, old)
        if a.Tlo is not None:
            yield from in_range(o, old, a)
        yield from self.domain(o, old, a)

    def pivots(self, o, old, a):
        return [old.n - 1, old.n - 2]

    def shape(self, o, old, new, a):
        out = [("bookkeeping of the number of layers", o.ieq(new.number_nodes, new.n)),
               ("fresh-snow bookkeeping unchanged", o.and_(o.eq(old.nsh, new.nsh), o.eq(old.nst, new.nst), o.eq(old.ost, new.ost)))]
        out += well_formed(o, new)
        if a.Tlo is not None:
            out += in_range(o, new, a)
        return out

    def inv(self, o, L):
        a = L.args
        yield "number of nodes", lambda: o.ieq(L.col().number_nodes, L.col().n)
        yield "at least one", lambda: L.col().n >= 1
        for nm, _ in valid_layers(o, L.old)[1:]:
            yield nm, lambda nm=nm: dict(valid_layers(o, L.col()))[nm]
        for nm in ("temperatures within bounds", "ice fractions within bounds"):
            yield nm, lambda nm=nm: dict(in_range(o, L.col(), a))[nm]


class LogProfile(_Remesh):
    qual, method = "Grid.log_profile", "log_profile"
    snow_total = None

    def domain(self, o, old, a):
        hs = o.pure(SNOW, old)
        self.hs = hs
        return [("height of at least the first layer plus the stretched snow height",
                 o.le(o.const("first_layer_height") + o.const("layer_stretching") * hs, old.H))]

    def ensures(self, o, old, new, a, res):
        return self.shape(o, old, new, a) + [(f"total {t} conserved", o.eq(new.tot[t], old.tot[t])) for t in MASS]

    def invgen(self, o, L):
        yield from self.inv(o, L)
        for t in MASS:
            yield f"total {t} conserved", lambda t=t: o.eq(L.col().tot[t], L.old.tot[t])
        first, st = o.const("first_layer_height"), o.const("layer_stretching")
        hs = self.hs
        yield "idx >= 0", lambda: L.now("idx") >= 0
        for nm, cur, v0 in L.reals():
            yield f"{nm} > 0", lambda cur=cur: o.pos(cur())
            yield f"{nm} is bounded by the stretched snow height", lambda cur=cur: o.le(cur(), first + st * hs)
            yield f"{nm} is part of the snow", lambda cur=cur: o.le(cur(), hs)
            for nm2, cur2, _ in L.reals():
                if nm2 != nm:
                    yield f"a first layer has {nm} of at least {nm2}", lambda cur=cur, cur2=cur2: o.implies(L.now("idx") <= 0, o.le(cur2(), cur()))


class AdaptiveProfile(_Remesh):
    qual, method = "Grid.adaptive_profile", "adaptive_profile"

    def domain(self, o, old, a):
        return self.bottom(o, old)

    def ensures(self, o, old, new, a, res):
        first = o.const("first_layer_height")
        return self.shape(o, old, new, a) + [(f"total {t} does not grow", o.le(new.tot[t], old.tot[t])) for t in ("H", "ICE", "WAT")] + [
            ("at least the first layer's height remains", o.le(first, new.H))]

    def invgen(self, o, L):
        yield from self.inv(o, L)
        first = o.const("first_layer_height")
        for t in ("H", "ICE", "WAT"):
            yield f"total {t} does not grow", lambda t=t: o.le(L.col().tot[t], L.old.tot[t])
        yield "idx >= 0", lambda: L.now("idx") >= 0
        yield "two layers", lambda: L.col().n >= 2
        for j in (1, 2):
            yield f"layer n-{j} untouched", lambda j=j: (lambda c, d: same_rec(o, c, c.n - j, d, d.n - j, RFRAME))(L.col(), L.old)
        yield "enough remains", lambda: o.le(first, L.col().H)
        yield "bookkeeping", lambda: o.and_(o.eq(L.col().nsh, L.old.nsh), o.eq(L.col().nst, L.old.nst), o.eq(L.col().ost, L.old.ost))


class UpdateGrid(_Remesh):
    qual, budget = "Grid.update_grid", 200
    cases = ({"remesh_method": "log_profile"}, {"remesh_method": "adaptive_profile"})
    uses = (LogProfile(), AdaptiveProfile())

    def domain(self, o, old, a):
        return (LogProfile if o.const("remesh_method") == "log_profile" else AdaptiveProfile).domain(self, o, old, a)

    def ensures(self, o, old, new, a, res):
        log, thin = o.const("remesh_method") == "log_profile", o.const("minimum_snow_layer_height")
        out = self.shape(o, old, new, a)
        for t in ("H", "ICE", "WAT"):
            out.append((f"total {t} does not grow", o.le(new.tot[t], old.tot[t])))
        if log:
            same = o.and_(*[o.eq(new.tot[t], old.tot[t]) for t in MASS])
            # everything is kept, or exactly one layer thinner than the minimum went
            out.append(("the totals are conserved unless a thin top layer is discarded", o.or_(same, o.lt(old.tot["H"] - new.tot["H"], thin))))
            out.append(("at most a thin layer is discarded", o.lt(old.tot["H"] - new.tot["H"], thin)))
            d = {t: old.tot[t] - new.tot[t] for t in MASS}
            out.append(("what is discarded is a layer of the column", o.and_(
                o.le(o.num(0), d["H"]), o.le(d["H"] * a.Flo, d["ICE"]), o.le(d["ICE"], d["H"] * a.Fhi), o.le(o.num(0), d["WAT"]),
                o.le(d["H"] * a.Tlo, d["HEAT"]), o.le(d["HEAT"], d["H"] * a.Thi))))
        return out
