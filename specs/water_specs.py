"""C05 percolation, C06 refreezing"""
from .base import *


class GetRunoff(Spec):
    module, qual, prop = "cosipy.modules.percolation", "get_runoff", "C05"
    result = "real"
    modifies = ("liquid_water_content",)
    functionals = ("H", "WAT")
    search_seconds = 2

    def ensures(self, o, old, new, a, res):
        n = old.n
        return [("returns the deepest layer's water", o.eq(res, old.w(n - 1) * old.h(n - 1))),
                ("deepest layer drained", o.eq(new.w(n - 1), o.num(0))),
                ("other layers unchanged", o.forall(0, n - 1, lambda i: o.eq(new.w(i), old.w(i)))),
                ("water conserved", o.eq(old.WAT, new.WAT + res)),
                ("runoff is not negative", o.le(o.num(0), res))]

    def gen(self, rng):
        return {"layers": rand_column(rng, 1, 8), "props": rand_props(rng), "args": {}}


class Percolation(Spec):
    module, qual, prop = "cosipy.modules.percolation", "percolation", "C05"
    args = (("water", "real"), ("dt", "real"))
    result = "real"
    modifies = ("liquid_water_content",)
    functionals = ("H", "WAT")

    def requires(self, o, old, a):
        return valid_layers(o, old) + [("water supplied >= 0", o.sle(o.num(0), a.water))]

    def ensures(self, o, old, new, a, res):
        n = old.n
        return [
            ("water conserved", o.eq(old.WAT + a.water, new.WAT + res)),
            ("no layer but the deepest above its retention capacity", o.forall(0, n - 1, lambda i: o.le(new.w(i), irr(o, old.f(i))))),
            ("deepest layer holds no water", o.eq(new.w(n - 1), o.num(0))),
            ("water contents not negative", o.forall(0, n, lambda i: o.sle(o.num(0), new.w(i)))),
            ("no layer drained below its retention capacity", o.forall(0, n - 1, lambda i: o.or_(
                o.le(old.w(i), new.w(i)), o.le(irr(o, old.f(i)), new.w(i))))),
            ("runoff is not negative", o.le(o.num(0), res)),
        ]

    def invgen(self, o, L):
        if not L.counted:
            return
        old = L.old
        yield "drained so far", lambda: (lambda c: o.forall(0, L.k, lambda i: o.le(c.w(i), irr(o, old.f(i)))))(L.col())
        yield "not over-drained", lambda: (lambda c: o.forall(0, L.k, lambda i: o.or_(
            o.le(old.w(i), c.w(i)), o.le(irr(o, old.f(i)), c.w(i)))))(L.col())
        yield "next layer has at least its own", lambda: (lambda c: o.forall(L.k, c.n, lambda i: o.le(old.w(i), c.w(i))))(L.col())

    def gen(self, rng):
        c = rand_column(rng, 1, 9)
        if rng.random() < 0.3:
            for l in c:
                l[2] = 0.0
        return {"layers": c, "props": rand_props(rng),
                "args": {"water": rng.choice([0.0, rng.uniform(0, 0.01), rng.uniform(0, 0.3)]), "dt": rng.choice([3600, 600])}}


class Refreezing(Spec):
    module, qual, prop = "cosipy.modules.refreezing", "refreezing", "C06"
    result = "real"
    modifies = ("temperature", "liquid_water_content", "ice_fraction", "refreeze")
    functionals = ("H", "ICE", "WAT", "REF")
    note = "refreezing: layer temperatures above 150 K and water contents at most 1 are assumed"

    def requires(self, o, old, a):
        return valid_layers(o, old) + [("water <= 1", o.forall(0, old.n, lambda i: o.sle(old.w(i), o.num(1)))),
                                       ("T >= 150 K", o.forall(0, old.n, lambda i: o.sle(o.num(150), old.T(i))))]

    def clauses(self, o, old):
        ri, rw, L = o.const("ice_density"), o.const("water_density"), o.const("lat_heat_melting")
        ci, cw, T0 = o.const("spec_heat_ice"), o.const("spec_heat_water"), o.const("zero_temperature")
        ra = o.const("air_density")
        phi = o.div(o.const("snow_ice_threshold") - ra, ri - ra)
        return [
            ("ice gained equals water lost", lambda c, i: o.eq((c.f(i) - old.f(i)) * ri, (old.w(i) - c.w(i)) * rw)),
            ("refreezing recorded per layer", lambda c, i: o.eq(c.r(i), old.h(i) * (old.w(i) - c.w(i)))),
            ("no layer gains water", lambda c, i: o.le(c.w(i), old.w(i))),
            ("water contents not negative", lambda c, i: o.le(o.num(0), c.w(i))),
            ("no layer loses ice", lambda c, i: o.le(old.f(i), c.f(i))),
            ("no layer cools", lambda c, i: o.le(old.T(i), c.T(i))),
            ("never warmed above melting", lambda c, i: o.or_(o.le(c.T(i), T0), o.eq(c.T(i), old.T(i)))),
            ("nothing freezes above melting", lambda c, i: o.implies(o.slt(T0, old.T(i)), o.and_(
                o.eq(c.w(i), old.w(i)), o.eq(c.T(i), old.T(i)), o.eq(c.f(i), old.f(i))))),
            ("warming is latent heat over heat capacity", lambda c, i: o.eq(
                (c.T(i) - old.T(i)) * (ci * ri * c.f(i) + cw * rw * c.w(i)), L * rw * (old.w(i) - c.w(i)))),
            ("density limit", lambda c, i: o.or_(o.le(c.f(i), phi), o.eq(c.f(i), old.f(i)))),
        ]

    def ensures(self, o, old, new, a, res):
        return [(nm, o.forall(0, old.n, lambda i, f=f: f(new, i))) for nm, f in self.clauses(o, old)] + [
            ("returns the column's loss of water", o.eq(res, old.WAT - new.WAT)),
            ("recorded refreezing sums to the total", o.eq(res, new.tot["REF"])),
        ]

    def invgen(self, o, L):
        if not L.counted:
            return
        old = L.old
        for nm, f in self.clauses(o, old):
            yield nm, lambda f=f: (lambda c: o.forall(0, L.k, lambda i: f(c, i)))(L.col())
        for nm, cur, v0 in L.reals():
            yield f"{nm} sums the refreezing", lambda cur=cur, v0=v0: (lambda c: o.eq(
                cur() - v0, o.prefix(c, lambda i: old.h(i) * (old.w(i) - c.w(i)), L.k)))(L.col())
            yield f"{nm} is the refreezing recorded so far", lambda cur=cur, v0=v0: (lambda c, e: o.eq(
                cur() - v0, c.tot["REF"] - e.tot["REF"] + o.prefix(e, e.r, L.k)))(L.col(), L.entry())

    def gen(self, rng):
        c = rand_column(rng, 1, 9)
        if rng.random() < 0.5:
            for l in c:
                l[1] = rng.choice([273.16, 273.16 - rng.expovariate(0.3), 273.16 + rng.choice([0, 0, 0.01])])
                l[2] = rng.choice([0.0, rng.uniform(0, 0.2), rng.uniform(0, 0.01)])
        return {"layers": c, "props": rand_props(rng), "args": {}}
