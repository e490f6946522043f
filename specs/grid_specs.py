"""Contracts for cosipy/cpkernel/grid.py"""
from .base import *

GRID = "cosipy.cpkernel.grid"
MASS = ("H", "ICE", "WAT", "HEAT")
RFRAME = ("height", "temperature", "liquid_water_content", "ice_fraction")


def well_formed(o, c):
    return [(f"stays well formed: {nm}", g) for nm, g in valid_layers(o, c)]


class MergeNodes(Spec):
    module, qual, prop = GRID, "Grid.merge_nodes", "C01"
    args = (("idx", "int"),)
    modifies = ("#struct",)
    ghosts = RANGE_GHOSTS

    def requires(self, o, old, a):
        out = valid_layers(o, old) + [("0 <= idx < n-1", o.and_(a.idx >= 0, a.idx < old.n - 1))]
        if a.Tlo is not None:
            out += in_range(o, old, a)
        return out

    def ghost_values(self, o, old, a):
        return range_ghosts(old)

    def ensures(self, o, old, new, a, res):
        k = a.idx
        out = [
            ("one layer fewer", o.and_(o.ieq(new.n, old.n - 1), o.ieq(new.number_nodes, new.n))),
            ("thickness is the sum", o.eq(new.h(k), old.h(k) + old.h(k + 1))),
            ("ice is the sum", o.eq(new.h(k) * new.f(k), old.h(k) * old.f(k) + old.h(k + 1) * old.f(k + 1))),
            ("water is the sum", o.eq(new.h(k) * new.w(k), old.h(k) * old.w(k) + old.h(k + 1) * old.w(k + 1))),
            ("heat is the sum", o.eq(new.h(k) * new.T(k), old.h(k) * old.T(k) + old.h(k + 1) * old.T(k + 1))),
            ("ice fraction between the two", between(o, new.f(k), old.f(k), old.f(k + 1))),
            ("temperature between the two", between(o, new.T(k), old.T(k), old.T(k + 1))),
            ("water content between the two", between(o, new.w(k), old.w(k), old.w(k + 1))),
            ("layers above unchanged", o.forall(0, k, lambda i: same_rec(o, new, i, old, i, RFRAME))),
            ("layers below unchanged", o.forall(k + 1, new.n, lambda i: same_rec(o, new, i, old, i + 1, RFRAME))),
            ("fresh-snow bookkeeping unchanged", same_bookkeeping(o, old, new)),
        ] + well_formed(o, new)
        for t in MASS:
            out.append((f"total {t} conserved", o.eq(new.tot[t], old.tot[t])))
        if a.Tlo is not None:
            out += in_range(o, new, a)
        return out

    def gen(self, rng):
        c = rand_column(rng, 2, 9)
        return {"layers": c, "props": rand_props(rng), "args": {"idx": rng.randint(0, len(c) - 2)}}


class MergeSnowWithGlacier(Spec):
    module, qual, prop = GRID, "Grid.merge_snow_with_glacier", "C01"
    args = (("idx", "int"),)
    modifies = ("#struct",)

    def requires(self, o, old, a):
        return valid_layers(o, old) + [("0 <= idx < n-1", o.and_(a.idx >= 0, a.idx < old.n - 1))]

    def ensures(self, o, old, new, a, res):
        k = a.idx
        conv = o.and_(is_snow(o, old, k), o.not_(is_snow(o, old, k + 1)))
        noconv = o.not_(conv)
        return [
            ("layer count", o.and_(o.ieq(new.n, old.n - o.ite(conv, 1, 0)), o.ieq(new.number_nodes, new.n))),
            ("ice layer grows by the snow mass at ice density",
             o.implies(conv, o.eq(new.h(k), old.h(k + 1) + o.div(old.h(k) * rho(o, old, k), o.const("ice_density"))))),
            ("ice layer keeps temperature and ice fraction",
             o.implies(conv, o.and_(o.eq(new.T(k), old.T(k + 1)), o.eq(new.f(k), old.f(k + 1))))),
            ("layers above unchanged", o.forall(0, k, lambda i: same_rec(o, new, i, old, i, RFRAME))),
            ("layers below unchanged", o.implies(conv, o.forall(k + 1, new.n, lambda i: same_rec(o, new, i, old, i + 1, RFRAME)))),
            ("nothing changes otherwise", o.implies(noconv, o.forall(0, new.n, lambda i: same_rec(o, new, i, old, i, RFRAME)))),
            ("fresh-snow bookkeeping unchanged", same_bookkeeping(o, old, new)),
        ]

    def gen(self, rng):
        c = rand_column(rng, 2, 6, snow_on_ice=True)
        n = len(c)
        s = sum(1 for l in c if 917 * l[3] + 1000 * l[2] < 890)
        idx = max(0, min(n - 2, s - 1)) if rng.random() < 0.8 else rng.randint(0, n - 2)
        return {"layers": c, "props": rand_props(rng), "args": {"idx": idx}}


class CorrectLayer(Spec):
    module, qual, prop = GRID, "Grid.correct_layer", "C02"
    args = (("idx", "int"), ("min_height", "real"))
    modifies = ("#struct",)
    uses = (MergeNodes(),)
    ghosts = RANGE_GHOSTS
    physical = False         # also require ice + water <= 1 and claim the kind clauses

    def requires(self, o, old, a):
        out = valid_layers(o, old) + [("0 <= idx < n", o.and_(a.idx >= 0, a.idx < old.n)), ("target > 0", o.pos(a.min_height))]
        if a.Tlo is not None:
            out += in_range(o, old, a)
        return out

    def ghost_values(self, o, old, a):
        return range_ghosts(old)

    def ensures(self, o, old, new, a, res):
        k, t = a.idx, a.min_height

        def alt(s):
            d = old.n + s - new.n      # number of layers merged into layer idx
            out = [o.and_(d >= 0, k + d < old.n),
                   o.forall(k + 1 + s, new.n, lambda i: same_rec(o, new, i, old, i + (d - s), RFRAME))]
            if s:
                out += [o.and_(k + 1 < new.n, o.eq(new.h(k), t), o.eq(new.T(k), new.T(k + 1)), o.eq(new.f(k), new.f(k + 1)),
                               o.le(new.w(k) * new.h(k), irr(o, new.f(k)) * (new.h(k) + new.h(k + 1)))),
                        # nothing goes below unless the upper part is full
                        o.or_(o.eq(new.w(k + 1), 0),
                              o.eq(new.w(k) * new.h(k), irr(o, new.f(k)) * (new.h(k) + new.h(k + 1))))]
            else:
                out += [o.le(new.h(k), t)]
            if self.physical:
                out += [o.forall(k + 1, k + d + 1, lambda i: o.iff(is_snow(o, old, i), is_snow(o, old, k)))]
                if not s:
                    out += [o.or_(o.eq(new.h(k), t), k + 1 >= new.n,
                                  o.not_(o.iff(is_snow(o, new, k), is_snow(o, new, k + 1))))]
            return out

        out = [
            ("layer count", o.and_(o.ieq(new.number_nodes, new.n), new.n >= k + 1, new.n <= old.n + 1)),
            ("layers above unchanged", o.forall(0, k, lambda i: same_rec(o, new, i, old, i, RFRAME))),
            ("target is hit, or the layer is thinner because nothing of its kind follows", o.any_of(alt(0), alt(1))),
            ("never thicker than the target", o.le(new.h(k), t)),
            ("fresh-snow bookkeeping unchanged", same_bookkeeping(o, old, new)),
        ] + well_formed(o, new)
        for tt in MASS:
            out.append((f"total {tt} conserved", o.eq(new.tot[tt], old.tot[tt])))
        if a.Tlo is not None:
            out += in_range(o, new, a)
        return out

    def invgen(self, o, L):
        old, a = L.old, L.args
        if L.func != "Grid.correct_layer":
            return
        k = a.idx
        for nm, cur, _ in L.reals():
            yield f"{nm} is the thickness", lambda cur=cur: o.eq(cur(), L.col().h(k))
        yield "idx < n", lambda: L.col().n > k
        yield "above", lambda: (lambda c: o.forall(0, k, lambda i: same_rec(o, c, i, old, i, RFRAME)))(L.col())
        yield "below", lambda: (lambda c: o.forall(k + 1, c.n, lambda i: same_rec(o, c, i, old, i + (old.n - c.n), RFRAME)))(L.col())
        for nm in ("temperatures within bounds", "ice fractions within bounds"):
            yield nm, lambda nm=nm: dict(in_range(o, L.col(), a))[nm]
        if self.physical:
            yield "fractions", lambda: o.le(L.col().f(k) + L.col().w(k), 1)
            yield "kind kept", lambda: o.iff(is_snow(o, L.col(), k), is_snow(o, old, k))
            yield "merged kinds", lambda: (lambda c: o.forall(k + 1, k + old.n - c.n + 1, lambda i: o.iff(is_snow(o, old, i), is_snow(o, old, k))))(L.col())

    def gen(self, rng):
        c = rand_column(rng, 1, 8, snow_on_ice=rng.random() < 0.7)
        i = rng.randint(0, len(c) - 1)
        t = rng.choice([rng.uniform(0.001, 0.05), rng.uniform(0.01, 1.0), rng.uniform(0.5, 6.0), c[i][0]])
        return {"layers": c, "props": rand_props(rng), "args": {"idx": i, "min_height": t}}


class CorrectLayerKinds(CorrectLayer):
    physical = True

    def requires(self, o, old, a):
        return super().requires(o, old, a) + [
            ("ice + water <= 1", o.forall(0, old.n, lambda i: o.sle(old.f(i) + old.w(i), o.num(1))))]

    def gen(self, rng):
        x = super().gen(rng)
        return x


class RemoveMelt(Spec):
    module, qual, prop = GRID, "Grid.remove_melt_weq", "C04"
    args = (("melt", "real"),)
    result = "real"
    modifies = ("#struct",)
    modifies_attrs = ("new_snow_height",)
    functionals = ("H", "ICE", "WAT", "MASS")

    def ensures(self, o, old, new, a, res):
        rw = o.const("water_density")
        d = old.n - new.n
        avail = o.div(old.tot["MASS"], rw)
        taken = o.max(o.num(0), o.min(a.melt, avail))
        left = new.n >= 1
        return [
            ("layer count", o.and_(d >= 0, o.ieq(new.number_nodes, new.n))),
            ("mass drops by exactly the melt, or everything goes", o.eq(o.div(old.tot["MASS"] - new.tot["MASS"], rw), taken)),
            ("non-positive melt changes no layer", o.implies(o.sle(a.melt, o.num(0)), o.and_(o.ieq(d, 0)))),
            ("non-positive melt keeps the thickness", o.implies(o.and_(o.sle(a.melt, o.num(0)), left), o.eq(new.h(0), old.h(0)))),
            ("layers below the affected one unchanged", o.forall(1, new.n, lambda i: same_rec(o, new, i, old, i + d, RFRAME))),
            ("partially melted layer only gets thinner", o.implies(left, o.and_(
                o.le(new.h(0), old.h(d)), o.pos(new.h(0)), o.eq(new.T(0), old.T(d)), o.eq(new.f(0), old.f(d)), o.eq(new.w(0), old.w(d))))),
            ("thicknesses stay positive", o.forall(0, new.n, lambda i: o.pos(new.h(i)))),
            ("returns the water of the layers removed completely",
             o.eq(res, old.WAT - new.WAT - o.ite(left, new.w(0) * (old.h(d) - new.h(0)), o.num(0)))),
            ("everything gone only if the melt suffices", o.or_(left, o.le(avail, a.melt))),
        ]

    def invgen(self, o, L):
        old, a = L.old, L.args
        rw = o.const("water_density")
        yield "shift", lambda: (lambda c: o.forall(1, c.n, lambda i: same_rec(o, c, i, old, i + (old.n - c.n), RFRAME)))(L.col())
        yield "top", lambda: (lambda c: o.implies(c.n >= 1, o.and_(
            o.le(c.h(0), old.h(old.n - c.n)), o.pos(c.h(0)), o.eq(c.T(0), old.T(old.n - c.n)),
            o.eq(c.f(0), old.f(old.n - c.n)), o.eq(c.w(0), old.w(old.n - c.n)))))(L.col())
        yield "positive", lambda: (lambda c: o.forall(0, c.n, lambda i: o.pos(c.h(i))))(L.col())
        yield "untouched", lambda: (lambda c: o.implies(o.le(a.melt, o.num(0)), o.and_(o.ieq(c.n, old.n), o.eq(c.h(0), old.h(0)))))(L.col())
        for nm, cur, v0 in L.reals():
            yield f"{nm} counts the mass", lambda cur=cur, v0=v0: o.eq((cur() - v0) * rw, L.col().tot["MASS"] - L.entry().tot["MASS"])
            yield f"{nm} counts the mass taken", lambda cur=cur, v0=v0: o.eq((cur() - v0) * rw, L.entry().tot["MASS"] - L.col().tot["MASS"])
            yield f"{nm} is done", lambda cur=cur, v0=v0: (lambda c: o.implies(c.n >= 1, o.or_(
                o.eq(cur(), o.num(0)), o.eq(c.h(0), old.h(old.n - c.n)))))(L.col())
            yield f"{nm} is the water", lambda cur=cur, v0=v0: (lambda c: o.eq(cur() - v0, L.entry().WAT - c.WAT - o.ite(
                c.n >= 1, c.w(0) * (old.h(old.n - c.n) - c.h(0)), o.num(0))))(L.col())
            yield f"{nm} is left over", lambda cur=cur, v0=v0: o.or_(o.le(o.num(0), cur()), o.eq(cur(), v0))

    def gen(self, rng):
        c = rand_column(rng, 1, 8)
        tot = sum(l[0] * (917 * l[3] + 1000 * l[2] + 1.1 * max(0, 1 - l[2] - l[3])) / 1000 for l in c)
        k = rng.randint(1, len(c))
        part = sum(l[0] * (917 * l[3] + 1000 * l[2] + 1.1 * max(0, 1 - l[2] - l[3])) / 1000 for l in c[:k])
        m = rng.choice([0.0, -rng.uniform(0, 1), rng.uniform(0, tot), rng.uniform(0, 0.02), part, part * rng.uniform(0.9, 1.1), tot * 1.5])
        return {"layers": c, "props": rand_props(rng), "args": {"melt": m}}


class AddFreshSnow(Spec):
    module, qual, prop = GRID, "Grid.add_fresh_snow", "C20"
    args = (("height", "real"), ("density", "real"), ("temperature", "real"), ("liquid_water_content", "real"), ("dt", "real"))
    modifies = ("#struct",)
    modifies_attrs = ("new_snow_height", "new_snow_timestamp", "old_snow_timestamp")
    functionals = MASS

    def requires(self, o, old, a):
        return valid_layers(o, old) + [("thickness > 0", o.pos(a.height)), ("density > 0", o.pos(a.density)),
                                       ("density below ice", o.sle(a.density, o.const("ice_density")))]

    def ensures(self, o, old, new, a, res):
        dry = density(o, new.f(0), o.num(0))
        big = o.sle(o.const("minimum_snowfall"), a.height)
        small = o.not_(big)
        return [
            ("one layer more", o.and_(o.ieq(new.n, old.n + 1), o.ieq(new.number_nodes, new.n))),
            ("thickness, temperature and water as given", o.and_(o.eq(new.h(0), a.height), o.eq(new.T(0), a.temperature), o.eq(new.w(0), a.liquid_water_content))),
            ("ice content matches the density", o.and_(o.le(a.density - o.num(0.01), dry), o.le(dry, a.density + o.num(0.01)))),
            ("other layers unchanged", o.forall(0, old.n, lambda i: same_rec(o, new, i + 1, old, i, RFRAME))),
            ("big snowfall resets the age", o.implies(big, o.and_(o.eq(new.nsh, a.height), o.eq(new.nst, o.num(0)), o.eq(new.ost, old.nst)))),
            ("small snowfall only ages", o.implies(small, o.and_(o.eq(new.nsh, old.nsh), o.eq(new.nst, old.nst + a.dt), o.eq(new.ost, old.ost + a.dt)))),
        ]

    def gen(self, rng):
        return {"layers": rand_column(rng, 1, 8), "props": rand_props(rng),
                "args": {"height": rng.choice([0.001, rng.uniform(1e-6, 0.002), rng.uniform(0.001, 0.5)]), "density": rng.uniform(30, 600),
                         "temperature": rng.uniform(240, 273.16), "liquid_water_content": rng.choice([0.0, rng.uniform(0, 0.1)]),
                         "dt": rng.choice([3600, 600, 10800])}}

    def directed(self):
        c = [[0.2, 270.0, 0.0, 0.4, 0.0], [1.0, 269.0, 0.0, 0.99, 0.0]]
        for h in (0.001, 0.000999, 0.0010001, 0.01):
            yield {"layers": c, "props": [0.1, 7200.0, 86400.0],
                   "args": {"height": h, "density": 250.0, "temperature": 270.0, "liquid_water_content": 0.0, "dt": 3600}}


class _Book(Spec):
    module, prop = GRID, "C20"
    modifies_attrs = ("new_snow_height", "new_snow_timestamp", "old_snow_timestamp")
    functionals = ()
    search_seconds = 1

    def requires(self, o, old, a):
        return valid_layers(o, old)

    def gen(self, rng):
        return {"layers": rand_column(rng, 1, 4), "props": rand_props(rng), "args": {nm: rng.uniform(0, 4000) for nm, _ in self.args}}


class SetFreshSnow(_Book):
    qual = "Grid.set_fresh_snow_props"
    args = (("height", "real"),)

    def ensures(self, o, old, new, a, res):
        return [("height set", o.eq(new.nsh, a.height)), ("age restarts", o.eq(new.nst, o.num(0))), ("previous age kept", o.eq(new.ost, old.nst))]


class AgeFreshSnow(_Book):
    qual = "Grid.set_fresh_snow_props_update_time"
    args = (("seconds", "real"),)

    def ensures(self, o, old, new, a, res):
        return [("height kept", o.eq(new.nsh, old.nsh)), ("age advances", o.eq(new.nst, old.nst + a.seconds)),
                ("old age advances", o.eq(new.ost, old.ost + a.seconds))]


class FreshSnowToOld(_Book):
    qual = "Grid.set_fresh_snow_props_to_old_props"

    def ensures(self, o, old, new, a, res):
        return [("age reverts to the underlying snow's", o.eq(new.nst, old.ost)), ("height kept", o.eq(new.nsh, old.nsh)),
                ("old age kept", o.eq(new.ost, old.ost))]


class FreshSnowHeight(_Book):
    qual = "Grid.set_fresh_snow_props_height"
    args = (("height", "real"),)

    def ensures(self, o, old, new, a, res):
        return [("height set", o.eq(new.nsh, a.height)), ("ages kept", o.and_(o.eq(new.nst, old.nst), o.eq(new.ost, old.ost)))]


class FreshSnowGet(_Book):
    qual = "Grid.get_fresh_snow_props"
    modifies_attrs = ()

    def ensures(self, o, old, new, a, res):
        h, t, t0 = res
        return [("height, age, age below", o.and_(o.eq(h, old.nsh), o.eq(t, old.nst), o.eq(t0, old.ost)))]


class RemoveNodes(Spec):
    """remove_node for an ascending list of layers (proved for one and two layers)"""
    module, qual, prop = GRID, "Grid.remove_node", "C20"
    args = (("i0", "int"),)
    modifies = ("#struct",)
    functionals = MASS
    search_seconds = 3

    def want(self, a):
        return [a.i0]

    def sym_call_args(self, grid, a):
        return [grid, self.want(a)]

    def requires(self, o, old, a):
        w = self.want(a)
        return valid_layers(o, old) + [("distinct valid layers", o.and_(
            *[o.and_(x >= 0, x < old.n) for x in w], *[o.not_(x == y) for k, x in enumerate(w) for y in w[:k]]))]

    def where(self, o, i, w):
        """old index of new layer i"""
        if len(w) == 1:
            return i + o.ite(i < w[0], 0, 1)
        lo, hi = o.min(w[0], w[1]), o.max(w[0], w[1])
        return i + o.ite(i < lo, 0, o.ite(i < hi - 1, 1, 2))

    def ensures(self, o, old, new, a, res):
        w = self.want(a)
        return [("layer count", o.and_(o.ieq(new.n, old.n - len(w)), o.ieq(new.number_nodes, new.n))),
                ("exactly the requested layers are gone, the others unchanged and in order",
                 o.forall(0, new.n, lambda i: same_rec(o, new, i, old, self.where(o, i, w))))]

    def invoke(self, env, inp):
        a = inp["args"]
        inp = dict(inp, args={"idx": [a[nm] for nm, _ in self.args]})
        sp = Spec()
        sp.module, sp.qual, sp.args, sp.has_grid = self.module, self.qual, (("idx", "list"),), True
        return env.default_invoke(sp, inp)

    def gen(self, rng):
        c = rand_column(rng, len(self.args), 8)
        idx = rng.sample(range(len(c)), len(self.args))
        return {"layers": c, "props": rand_props(rng), "args": {nm: i for (nm, _), i in zip(self.args, idx)}}


class RemoveTwoNodes(RemoveNodes):
    args = (("i0", "int"), ("i1", "int"))

    def want(self, a):
        return [a.i0, a.i1]


class RemoveTop(RemoveNodes):
    args = (("idx", "none"),)

    def sym_call_args(self, grid, a):
        return [grid]

    def want(self, a):
        return [0]

    def invoke(self, env, inp):
        return env.default_invoke(self, inp)

    def gen(self, rng):
        return {"layers": rand_column(rng, 1, 6), "props": rand_props(rng), "args": {"idx": None}}


class RemoveManyNodes(RemoveNodes):
    """any list of layers, executed (bounded)"""
    bounded_only = True

    def want(self, a):
        return list(a.idx) or [0]

    def where(self, o, i, w):
        return [j for j in range(len(w) + i + 1) if j not in w][i]

    def invoke(self, env, inp):
        sp = Spec()
        sp.module, sp.qual, sp.args, sp.has_grid = self.module, self.qual, (("idx", "list"),), True
        return env.default_invoke(sp, inp)

    def gen(self, rng):
        c = rand_column(rng, 1, 9)
        return {"layers": c, "props": rand_props(rng), "args": {"idx": rng.sample(range(len(c)), rng.randint(0, len(c)))}}
