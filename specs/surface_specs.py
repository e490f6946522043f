"""C10 albedo, C11 roughness length, C08 heat conduction"""
from .base import *
from .props_specs import _Kinds, VALUE, SetProfile_temperature

ALB = "cosipy.modules.albedo"
ALB_CONSTS = ("albedo_ice", "albedo_firn", "albedo_fresh_snow", "albedo_mod_snow_aging", "albedo_mod_snow_depth")


def albedo_config(o):
    ice, firn, fresh = o.const("albedo_ice"), o.const("albedo_firn"), o.const("albedo_fresh_snow")
    return [("0 <= ice <= firn <= fresh <= 1", o.and_(o.sle(o.num(0), ice), o.sle(ice, firn), o.sle(firn, fresh), o.sle(fresh, o.num(1)))),
            ("scales positive", o.and_(o.pos(o.const("albedo_mod_snow_aging")), o.pos(o.const("albedo_mod_snow_depth"))))]


def rand_albedo_config(rng):
    if rng.random() < 0.4:
        return {}
    x = sorted(rng.uniform(0.05, 1) for _ in range(3))
    return {"albedo_ice": x[0], "albedo_firn": x[1], "albedo_fresh_snow": x[2],
            "albedo_mod_snow_aging": rng.choice([22, 6, rng.uniform(0.5, 40)]),
            "albedo_mod_snow_depth": rng.choice([3, 8, rng.uniform(0.5, 40)])}


POOL = {}


def pooled(rng, key, make, size=5):
    """a handful of configurations per search (each one is a fresh import of the code)"""
    l = POOL.setdefault((id(rng), key), [])
    if len(l) < size:
        l.append(make(rng))
    return rng.choice(l)


def snow_albedo(o, age_s):
    firn, fresh = o.const("albedo_firn"), o.const("albedo_fresh_snow")
    scale = o.const("albedo_mod_snow_aging") * o.num(24)
    return firn + (fresh - firn) * o.exp(o.div(-o.div(age_s, o.num(3600)), scale))


def depth_albedo(o, snow, h):
    d = o.div(o.const("albedo_mod_snow_depth"), o.num(100))
    return snow + (o.const("albedo_ice") - snow) * o.exp(o.div(-h, d))


class SimpleAlbedo(Spec):
    """ageing of the snow albedo, two ages at once"""
    module, qual, prop = ALB, "get_simple_albedo", "C10"
    has_grid = False
    args = (("t1", "real"), ("t2", "real"))
    sym_consts = ALB_CONSTS
    search_seconds = 1

    def const_requires(self, o):
        return albedo_config(o)

    def requires(self, o, old, a):
        return [("0 <= t1 <= t2", o.and_(o.sle(o.num(0), a.t1), o.sle(a.t1, a.t2)))]

    def drive(self, run, a):
        return run(a.t1), run(a.t2)

    def ensures(self, o, old, new, a, res):
        r1, r2 = res
        return [("between firn and fresh snow", o.and_(o.le(o.const("albedo_firn"), r2), o.le(r1, o.const("albedo_fresh_snow")))),
                ("never increases with age", o.le(r2, r1)),
                ("fresh-snow albedo at age zero", o.implies(a.t1 == 0, o.eq(r1, o.const("albedo_fresh_snow")))),
                ("e-folding age", o.eq(r1, snow_albedo(o, a.t1 * o.num(3600))))]

    def gen(self, rng):
        t1 = rng.choice([0.0, rng.uniform(0, 1000), rng.expovariate(0.01)])
        return {"args": {"t1": t1, "t2": t1 + rng.choice([0, rng.uniform(0, 1000)])}, "consts": pooled(rng, "alb", rand_albedo_config)}


class DepthAlbedo(Spec):
    """influence of the snow depth, two depths at once"""
    module, qual, prop = ALB, "get_albedo_with_decay", "C10"
    has_grid = False
    args = (("snow_albedo", "real"), ("h1", "real"), ("h2", "real"))
    sym_consts = ALB_CONSTS
    search_seconds = 1

    def const_requires(self, o):
        return albedo_config(o)

    def requires(self, o, old, a):
        return [("0 <= h1 <= h2", o.and_(o.sle(o.num(0), a.h1), o.sle(a.h1, a.h2)))]

    def drive(self, run, a):
        return run(a.snow_albedo, a.h1), run(a.snow_albedo, a.h2)

    def ensures(self, o, old, new, a, res):
        r1, r2 = res
        ice = o.const("albedo_ice")
        return [("between ice and snow albedo", between(o, r1, ice, a.snow_albedo)),
                ("thinner snow is closer to the ice albedo", between(o, r1, ice, r2)),
                ("ice albedo at depth zero", o.implies(a.h1 == 0, o.eq(r1, ice))),
                ("e-folding depth", o.eq(r1, depth_albedo(o, a.snow_albedo, a.h1)))]

    def gen(self, rng):
        h1 = rng.choice([0.0, rng.uniform(0, 0.1), rng.expovariate(1)])
        return {"args": {"snow_albedo": rng.uniform(0.2, 0.95), "h1": h1, "h2": h1 + rng.choice([0, rng.uniform(0, 0.3)])},
                "consts": pooled(rng, "alb", rand_albedo_config)}


class SurfaceProperties(Spec):
    module, qual, prop = ALB, "get_surface_properties", "C10"
    modifies_attrs = ("new_snow_timestamp",)
    functionals = ()
    sym_consts = ("albedo_mod_snow_aging",)
    search_seconds = 1

    def ensures(self, o, old, new, a, res):
        h, t, hours = res
        return reversion(o, old, new) + [
            ("fresh snow height", o.eq(h, new.nsh)), ("age in seconds", o.eq(t, new.nst)), ("age in hours", o.eq(hours * o.num(3600), new.nst))]

    def gen(self, rng):
        return {"layers": rand_column(rng, 1, 3), "props": albedo_props(rng), "args": {}, "consts": pooled(rng, "alb", rand_albedo_config)}


def vanished(o, old):
    return o.and_(o.slt(old.nst, o.const("albedo_mod_snow_aging") * o.num(24 * 3600)), o.sle(old.nsh, o.num(0)))


def reversion(o, old, new):
    gone = o.and_(old.nst < o.const("albedo_mod_snow_aging") * o.num(24 * 3600), old.nsh <= 0)
    return [("snow age reverts to the underlying snow's when the fresh snow is gone", o.implies(vanished(o, old), o.eq(new.nst, old.ost))),
            ("snow age kept otherwise", o.or_(gone, o.eq(new.nst, old.nst)))]


def albedo_props(rng):
    return [rng.choice([0.0, 0.0, -0.01, rng.uniform(0, 0.3)]), rng.choice([0.0, rng.uniform(0, 2e5), rng.uniform(0, 4e6)]), rng.uniform(0, 6e6)]


class UpdateAlbedo(_Kinds):
    """both albedo schemes on a whole column"""
    module, qual, prop = ALB, "updateAlbedo", "C10"
    args = (("surface_temperature", "real"), ("albedo_snow", "real"))
    modifies_attrs = ("new_snow_timestamp",)
    sym_consts = ALB_CONSTS + ("t_star_wet", "t_star_dry", "t_star_K", "dt")
    cases = ({"albedo_method": "Oerlemans98"}, {"albedo_method": "Bougamont05"})
    search_seconds = 5
    note = "updateAlbedo: the snow albedo decay times of the Bougamont scheme are assumed to be at least one time step"

    def const_requires(self, o):
        day = o.div(o.const("dt"), o.num(86400))
        return albedo_config(o) + [("time step > 0", o.pos(o.const("dt"))),
                                   ("decay times at least one time step", o.and_(
                                       o.sle(day, o.const("t_star_wet")), o.sle(day, o.const("t_star_dry")), o.sle(o.num(0), o.const("t_star_K"))))]

    def requires(self, o, old, a):
        firn, fresh = o.const("albedo_firn"), o.const("albedo_fresh_snow")
        return super().requires(o, old, a) + [
            ("previous snow albedo within bounds", o.and_(o.sle(firn, a.albedo_snow), o.sle(a.albedo_snow, fresh))),
            ("surface not above melting", o.sle(a.surface_temperature, o.const("zero_temperature"))),
            ("ages not negative", o.and_(o.sle(o.num(0), old.nst), o.sle(o.num(0), old.ost)))]

    def ensures(self, o, old, new, a, res):
        alb, snow = res
        ice, firn, fresh = o.const("albedo_ice"), o.const("albedo_firn"), o.const("albedo_fresh_snow")
        thr = o.const("snow_ice_threshold")
        H = o.prefix(old, old.h, a.S)
        out = reversion(o, old, new) + [
            ("albedo within the configured bounds", o.and_(o.le(ice, alb), o.le(alb, fresh))),
            ("ice surface has the ice albedo", o.implies(o.slt(thr, rho(o, old, 0)), o.eq(alb, ice))),
            ("snow albedo within firn and fresh", o.and_(o.le(firn, snow), o.le(snow, fresh)))]
        surf = o.slt(rho(o, old, 0), thr)
        if o.const("albedo_method") == "Oerlemans98":
            out += [("albedo from snow age and depth", o.implies(surf, o.eq(alb, depth_albedo(o, snow_albedo(o, new.nst), H)))),
                    ("snow albedo passed through", o.eq(snow, a.albedo_snow))]
        else:
            out += [("albedo from snow albedo and depth", o.implies(surf, o.eq(alb, depth_albedo(o, snow, H)))),
                    ("snow albedo is reset by snowfall", o.implies(o.and_(surf, new.nst == 0), o.eq(snow, fresh))),
                    ("snow albedo never recovers without snowfall", o.or_(new.nst == 0, o.le(snow, a.albedo_snow)))]
        return out

    def gen(self, rng):
        x = super().gen(rng)
        x["props"] = albedo_props(rng)
        c = pooled(rng, "alb2", lambda r: dict(rand_albedo_config(r), albedo_method=r.choice(["Oerlemans98", "Bougamont05"]),
                                               dt=r.choice([3600, 3600, 600, 10800])), 8)
        firn, fresh = c.get("albedo_firn", 0.55), c.get("albedo_fresh_snow", 0.85)
        x["consts"] = c
        x["args"] = {"surface_temperature": min(273.16, rng.choice([273.16, rng.uniform(240, 274)])),
                     "albedo_snow": rng.choice([firn, fresh, rng.uniform(firn, fresh)])}
        if rng.random() < 0.7:
            for l in x["layers"]:
                l[0] *= rng.choice([0.05, 1])
        return x


ROUGH = ("roughness_fresh_snow", "roughness_firn", "roughness_ice", "aging_factor_roughness")


class Roughness(Spec):
    """two snow ages at once"""
    module, qual, prop = "cosipy.modules.roughness", "updateRoughness", "C11"
    args = (("t1", "real"), ("t2", "real"))
    functionals = ()
    sym_consts = ROUGH
    modifies_attrs = ("new_snow_timestamp",)
    search_seconds = 3

    def const_requires(self, o):
        return [("roughness lengths positive", o.and_(*[o.pos(o.const(c)) for c in ROUGH])),
                ("fresh <= firn", o.sle(o.const("roughness_fresh_snow"), o.const("roughness_firn")))]

    def requires(self, o, old, a):
        return valid_layers(o, old) + [("ages", o.and_(o.sle(o.num(0), a.t1), o.sle(a.t1, a.t2)))]

    def drive(self, run, a):
        run.attr("new_snow_timestamp", a.t1)
        x = run()
        run.attr("new_snow_timestamp", a.t2)
        return x, run()

    def ensures(self, o, old, new, a, res):
        r1, r2 = res
        fresh, firn, ice, g = [o.const(c) for c in ROUGH]
        mm = o.num(1000)
        snow, isice = o.slt(rho(o, old, 0), o.const("snow_ice_threshold")), o.slt(o.const("snow_ice_threshold"), rho(o, old, 0))
        lin = fresh + g * o.div(a.t1, o.num(3600))
        return [("ice surface has the ice value", o.implies(isice, o.eq(r1 * mm, ice))),
                ("fresh snow value at age zero", o.implies(o.and_(snow, a.t1 == 0), o.eq(r1 * mm, fresh))),
                ("linear growth up to the firn value", o.implies(snow, o.eq(r1 * mm, o.min(lin, firn)))),
                ("never above the firn value", o.implies(snow, o.le(r1 * mm, firn))),
                ("never shrinks with age", o.le(r1, r2)),
                ("only read, not changed", o.eq(new.nst, a.t2))]

    def gen(self, rng):
        t1 = rng.choice([0.0, rng.uniform(0, 1e5), rng.uniform(0, 8e6)])
        return {"layers": rand_column(rng, 1, 3), "props": rand_props(rng), "args": {"t1": t1, "t2": t1 + rng.choice([0.0, rng.uniform(0, 5e6)])},
                "consts": pooled(rng, "rough", lambda r: {} if r.random() < 0.4 else (lambda f: {
                    "roughness_fresh_snow": f, "roughness_firn": f + r.uniform(0, 8), "roughness_ice": r.uniform(0.1, 8),
                    "aging_factor_roughness": r.uniform(1e-4, 0.1)})(r.uniform(0.01, 2)))}


class RoughnessFrame(Roughness):
    """computing it does not modify the column"""
    args = ()
    modifies_attrs = ()
    sym_consts = ()
    search_seconds = 1

    def requires(self, o, old, a):
        return valid_layers(o, old)

    drive = None

    def ensures(self, o, old, new, a, res):
        return []

    def gen(self, rng):
        return dict(Roughness.gen(self, rng), args={})


HEAT = "cosipy.modules.heatEquation"


def diffusivity(o, c, i):
    return o.opaque("thermal_diffusivity", (c.f(i), c.w(i), c.T(i)), lambda: VALUE["thermal_diffusivity"](o, c, i))


class DiffusivityPositive(Spec):
    """what heat conduction needs to know about the diffusivities"""
    module, qual, prop = "cosipy.cpkernel.grid", "Grid.get_thermal_diffusivity", "C08"
    functionals = ()
    result = "arr"
    cases = ({}, {"thermal_conductivity_method": "empirical"})
    search_seconds = 1

    def ensures(self, o, old, new, a, res):
        r = o.seq(res)
        return [("one value per layer", o.ieq(r.n, old.n)), ("positive", o.forall(0, old.n, lambda i: o.pos(r.at(i))))]

    def gen(self, rng):
        return {"layers": rand_column(rng, 1, 6), "props": rand_props(rng), "args": {}}


class DiffusivityUniform(DiffusivityPositive):
    """identical layers have identical diffusivities"""
    def requires(self, o, old, a):
        return valid_layers(o, old) + identical(o, old)

    def ensures(self, o, old, new, a, res):
        r = o.seq(res)
        return super().ensures(o, old, new, a, res) + [("the same everywhere", o.forall(0, old.n, lambda i: o.eq(r.at(i), r.at(0))))]

    def gen(self, rng):
        x = super().gen(rng)
        l0 = x["layers"][0]
        x["layers"] = [[l0[0], l[1], l0[2], l0[3], l[4]] for l in x["layers"]]
        return x


def identical(o, old):
    return [("identical layers", o.forall(0, old.n, lambda i: o.and_(o.eq(old.f(i), old.f(0)), o.eq(old.w(i), old.w(0)), o.eq(old.h(i), old.h(0)))))]


class SolveHeat(Spec):
    """one time step of heat conduction"""
    uses = (DiffusivityPositive(), SetProfile_temperature())
    module, qual, prop = HEAT, "solveHeatEquation", "C08"
    args = (("dt", "real"),)
    modifies = ("temperature",)
    functionals = ()
    ghosts = ("Tlo", "Thi")

    def ghost_values(self, o, old, a):
        ts = [old.T(i) for i in range(old.n)]
        return {"Tlo": min(ts), "Thi": max(ts)}

    def requires(self, o, old, a):
        return valid_layers(o, old) + [
            ("at least three layers", old.n >= 3), ("time step > 0", o.pos(a.dt)),
            ("temperatures within bounds", o.forall(0, old.n, lambda i: o.and_(o.sle(a.Tlo, old.T(i)), o.sle(old.T(i), a.Thi))))]

    def ensures(self, o, old, new, a, res):
        n = old.n
        return [("temperatures stay within the range before", o.forall(0, n, lambda i: o.and_(o.le(a.Tlo, new.T(i)), o.le(new.T(i), a.Thi)))),
                ("top temperature unchanged", o.eq(new.T(0), old.T(0))),
                ("bottom temperature unchanged", o.eq(new.T(n - 1), old.T(n - 1)))]

    def invgen(self, o, L):
        if L.counted:
            return
        n, a, old = L.old.n, L.args, L.old
        for nm, cur in L.arrays():
            yield f"{nm} in range", lambda cur=cur: (lambda c: o.forall(0, n, lambda i: o.and_(o.le(a.Tlo, c.at(i)), o.le(c.at(i), a.Thi))))(cur())
            yield f"{nm} top", lambda cur=cur: o.eq(cur().at(0), old.T(0))
            yield f"{nm} bottom", lambda cur=cur: o.eq(cur().at(n - 1), old.T(n - 1))

    def gen(self, rng):
        c = rand_column(rng, 3, 9)
        if rng.random() < 0.3:
            for l in c:
                l[0] *= rng.choice([1e-2, 1])
        m = min(l[0] for l in c)
        # keep the number of sub-steps within reach
        dt = rng.choice([3600.0, 600.0, rng.uniform(1, 1e5)])
        dt = min(dt, 4000 * m * m * 4e5)
        return {"layers": c, "props": rand_props(rng), "args": {"dt": dt},
                "consts": pooled(rng, "heat", lambda r: r.choice([{}, {"thermal_conductivity_method": "empirical"}]), 4)}


class DiffusivityValue(DiffusivityPositive):
    """the diffusivities are those of the layers"""
    reveal = ("thermal_diffusivity",)

    def ensures(self, o, old, new, a, res):
        r = o.seq(res)
        return super().ensures(o, old, new, a, res) + [
            ("conductivity / (density * specific heat)", o.forall(0, old.n, lambda i: o.eq(r.at(i), diffusivity(o, old, i))))]


class _HeatStep:
    """explicit conduction: temperature change of layer i in a time dt"""
    def __init__(self, o, c, dt):
        self.o, self.c, self.dt = o, c, dt

    def dz(self, i):
        return self.o.div(self.c.h(i) + self.c.h(i + 1), self.o.num(2))

    def D(self, i):
        return self.o.div(diffusivity(self.o, self.c, i) + diffusivity(self.o, self.c, i + 1), self.o.num(2))

    def flux(self, i):
        o, c = self.o, self.c
        return o.div(self.D(i) * self.dt * (c.T(i + 1) - c.T(i)), self.dz(i))

    def after(self, i):
        o, c = self.o, self.c
        return c.T(i) + o.div(self.flux(i) - self.flux(i - 1), o.num(0.5) * (self.dz(i - 1) + self.dz(i)))


class HeatOneStep(SolveHeat):
    """a step well inside the stability limit is one explicit step of exactly the requested length"""
    uses = (DiffusivityValue(), SetProfile_temperature())
    ghosts = ()
    search_seconds = 4

    def ghost_values(self, o, old, a):
        return {}

    def requires(self, o, old, a):
        s = _HeatStep(o, old, a.dt)
        return valid_layers(o, old) + [
            ("at least three layers", old.n >= 3), ("time step > 0", o.pos(a.dt)),
            ("well inside the stability limit", o.forall(0, old.n - 1, lambda i: o.sle(o.num(4) * a.dt * s.D(i), s.dz(i) * s.dz(i))))]

    def ensures(self, o, old, new, a, res):
        s, n = _HeatStep(o, old, a.dt), old.n
        return [("conduction over exactly the time step", o.forall(1, n - 1, lambda i: o.eq(new.T(i), s.after(i)))),
                ("top and bottom unchanged", o.and_(o.eq(new.T(0), old.T(0)), o.eq(new.T(n - 1), old.T(n - 1))))]

    def invgen(self, o, L):
        if L.counted:
            return
        n, a, old = L.old.n, L.args, L.old
        s = _HeatStep(o, old, a.dt)
        for nm, cur in L.arrays():
            for rn, rc, v0 in L.reals():
                def one(cur=cur, rc=rc):
                    c, r = cur(), rc()
                    return o.any_of([r == 0, o.forall(0, n, lambda i: o.eq(c.at(i), old.T(i)))],
                                    [o.eq(r, a.dt), o.eq(c.at(0), old.T(0)), o.eq(c.at(n - 1), old.T(n - 1)),
                                     o.forall(1, n - 1, lambda i: o.eq(c.at(i), s.after(i)))])
                yield f"{nm} {rn} none or all done", one

    def gen(self, rng):
        x = super().gen(rng)
        m = min(l[0] for l in x["layers"])
        x["args"]["dt"] = rng.uniform(0.1, 1) * m * m * 2e4
        return x


class HeatLinear(SolveHeat):
    """identical layers: a linear profile is left alone"""
    uses = (DiffusivityUniform(), SetProfile_temperature())
    ghosts = ("slope",)
    search_seconds = 4

    def ghost_values(self, o, old, a):
        return {"slope": old.T(1) - old.T(0)}

    def requires(self, o, old, a):
        return valid_layers(o, old) + identical(o, old) + [
            ("at least three layers", old.n >= 3), ("time step > 0", o.pos(a.dt)),
            ("linear profile", o.forall(0, old.n - 1, lambda i: o.eq(old.T(i + 1), old.T(i) + a.slope)))]

    def ensures(self, o, old, new, a, res):
        return [("linear profile unchanged", o.forall(0, old.n, lambda i: o.eq(new.T(i), old.T(i))))]

    def invgen(self, o, L):
        if L.counted:
            return
        for nm, cur in L.arrays():
            yield f"{nm} unchanged", lambda cur=cur: (lambda c: o.forall(0, L.old.n, lambda i: o.eq(c.at(i), L.old.T(i))))(cur())

    def gen(self, rng):
        x = super().gen(rng)
        l0 = x["layers"][0]
        t, s = rng.uniform(240, 272), rng.uniform(-2, 0.1)
        x["layers"] = [[l0[0], t + s * i, l0[2], l0[3], l[4]] for i, l in enumerate(x["layers"])]
        return x


class HeatElapsed(SolveHeat):
    """bounded: many sub-steps together advance the column by the requested time (against the exact solution of the
    semi-discrete equation; the explicit scheme's error is at most half a stable step times dt times max |A^2 T|)"""
    bounded_only = True
    ghosts = ()
    search_seconds = 4

    def ghost_values(self, o, old, a):
        return {}

    def requires(self, o, old, a):
        return [("at least three layers", old.n >= 3), ("time step > 0", o.pos(a.dt))]

    def ensures(self, o, old, new, a, res):
        import numpy as np
        n = old.n
        s = _HeatStep(o, old, 1.0)
        A = np.zeros((n, n))
        for i in range(1, n - 1):
            w = 0.5 * (s.dz(i - 1) + s.dz(i))
            up, dn = s.D(i - 1) / s.dz(i - 1) / w, s.D(i) / s.dz(i) / w
            A[i, i - 1], A[i, i + 1], A[i, i] = up, dn, -up - dn
        T0 = np.array([old.T(i) for i in range(n)])
        stab = 0.5 * min(s.dz(i) ** 2 / s.D(i) for i in range(n - 1))
        # exp(A dt) by scaling and squaring
        k = max(0, int(np.ceil(np.log2(max(1e-9, np.abs(A).sum(1).max() * a.dt)))) + 6)
        B = A * (a.dt / 2 ** k)
        E = np.eye(n) + B @ (np.eye(n) + B @ (np.eye(n) / 2 + B @ (np.eye(n) / 6 + B / 24)))
        for _ in range(k):
            E = E @ E
        bound = 1.01 * (min(stab, a.dt) / 2) * a.dt * np.abs(A @ (A @ T0)).max() + 1e-6
        err = max(abs(new.T(i) - (E @ T0)[i]) for i in range(n))
        return [("sub-steps add up to the time step", err <= bound)]

    def gen(self, rng):
        import math
        n = rng.choice([rng.randint(4, 9), rng.randint(15, 30)])
        h, amp, f = rng.uniform(0.02, 0.5), rng.uniform(1, 10), rng.uniform(0.2, 0.9)
        j = rng.choice([0, 0.03])
        # slowest mode of identical layers on top of a linear profile: the bound is tight
        c = [[h * (1 + rng.uniform(-j, j)), 255 + 0.1 * i + amp * math.sin(math.pi * i / (n - 1)), 0.0, f, 0.0] for i in range(n)]
        dt = h * h * n * n * rng.uniform(1e4, 4e5)
        return {"layers": c, "props": rand_props(rng), "args": {"dt": dt}, "consts": {}}
