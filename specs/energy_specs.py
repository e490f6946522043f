"""C12, C13, C14: surface energy fluxes, surface temperature, subsurface temperatures."""
from .base import *

MOD = "cosipy.modules.surfaceTemperature"


# ---------------------------------------------------------------- C14
class SubsurfaceTemperature(Spec):
    """linear interpolation between the two layers that bracket the depth"""
    prop = "C14"
    module, qual = MOD, "get_subsurface_temperature"
    args = (("cumulative_depth", "arr"), ("zlt", "real"))
    ghosts = ("k",)
    int_ghosts = ("k",)
    result = "real"
    functionals = ()

    def ghost_values(self, o, old, a):
        c = o.seq(a.cumulative_depth)
        return {"k": next((i for i in range(c.n - 1) if c.at(i) <= a.zlt <= c.at(i + 1)), 0)}

    def requires(self, o, old, a):
        c, k, n = o.seq(a.cumulative_depth), a.k, old.n
        return valid_layers(o, old) + [
            ("bracket exists", o.and_(k >= 0, k + 1 < n)),
            ("depth in bracket", o.and_(o.sle(c.at(k), a.zlt), o.sle(a.zlt, c.at(k + 1)), o.slt(c.at(k), c.at(k + 1)))),
            ("depths increase (above)", o.forall(0, k, lambda i: o.slt(c.at(i), c.at(k)))),
            ("depths increase (below)", o.forall(k + 2, n, lambda i: o.slt(c.at(k + 1), c.at(i))))]

    def ensures(self, o, old, new, a, res):
        c = o.seq(a.cumulative_depth)
        return interpolation(o, old, c.at(a.k), c.at(a.k + 1), a.k, a.zlt, res)

    def gen(self, rng):
        c = rand_column(rng, 2, 9)
        d, s = [], 0
        for l in c:
            s += l[0]
            d.append(s)
        z = rng.choice([rng.uniform(d[0], d[-1]), rng.choice(d)])
        return {"layers": c, "props": rand_props(rng), "args": {"cumulative_depth": d, "zlt": z}, "consts": {}}


def interpolation(o, old, c0, c1, k, z, t):
    t0, t1 = old.T(k), old.T(k + 1)
    return [
        ("linear interpolation between the bracketing layers", o.eq((t - t0) * (c1 - c0), (t1 - t0) * (z - c0))),
        ("between the two layers' temperatures", between(o, t, t0, t1)),
        ("upper layer's temperature at its depth", o.implies(o.ieq(z, c0), o.eq(t, t0))),
        ("lower layer's temperature at its depth", o.implies(o.ieq(z, c1), o.eq(t, t1))),
    ]


class InterpSubT(Spec):
    """both interpolation depths, from cumulative layer depths"""
    prop = "C14"
    module, qual = MOD, "interp_subT"
    ghosts = ("k1", "k2")
    int_ghosts = ("k1", "k2")
    sym_consts = ("zlt1", "zlt2")
    functionals = ()
    uses = (SubsurfaceTemperature(),)

    def call_ghosts(self, o, callee, a, ca):
        return {"k": a.k2 if not ca.zlt.eq(o.const("zlt1")) else a.k1}

    def const_requires(self, o):
        return [("zlt1 > 0", o.pos(o.const("zlt1"))), ("zlt2 > zlt1", o.pos(o.const("zlt2") - o.const("zlt1")))]

    def ghost_values(self, o, old, a):
        d = self.cum(o, old)
        out = {}
        for nm, z in (("k1", o.const("zlt1")), ("k2", o.const("zlt2"))):
            out[nm] = next((i for i in range(old.n - 1) if d(i) <= z <= d(i + 1)), 0)
        return out

    def cum(self, o, old):
        return lambda i: o.prefix(old, old.h, i + 1)

    def requires(self, o, old, a):
        d, n = self.cum(o, old), old.n
        out = valid_layers(o, old)
        for k, z in ((a.k1, o.const("zlt1")), (a.k2, o.const("zlt2"))):
            out += [("bracket exists", o.and_(k >= 0, k + 1 < n)), ("depth in bracket", o.and_(o.sle(d(k), z), o.sle(z, d(k + 1))))]
        return out

    def ensures(self, o, old, new, a, res):
        d, r = self.cum(o, old), o.seq(res)
        out = [("two temperatures", o.ieq(r.n, 2))]
        for j, (k, z) in enumerate(((a.k1, o.const("zlt1")), (a.k2, o.const("zlt2")))):
            out += [(f"depth {j + 1}: {nm}", g) for nm, g in interpolation(o, old, d(k), d(k + 1), k, z, r.at(j))]
        return out

    def gen(self, rng):
        c = rand_column(rng, 2, 9)
        s = sum(l[0] for l in c)
        if rng.random() < 0.7:
            c[0][0] = rng.uniform(0.001, 0.06)
        if s < 0.15:
            c[-1][0] += 0.2
        return {"layers": c, "props": rand_props(rng), "args": {},
                "consts": pooled(rng, "zlt", lambda r: r.choice([{}, {"zlt1": 0.03, "zlt2": 0.2}]), 2)}


_POOL = {}


def pooled(rng, key, make, n):
    """few constant sets per run (each one needs a fresh import of the code)"""
    p = _POOL.setdefault(key, [])
    if len(p) < n:
        p.append(make(rng))
        return p[-1]
    return rng.choice(p)


# ---------------------------------------------------------------- C12
FLUX_ARGS = (("T0", "np"), ("dt", "real"), ("z", "real"), ("z0", "real"), ("T2", "np"), ("rH2", "real"), ("p", "real"),
             ("u2", "real"), ("RAIN", "real"), ("SLOPE", "real"), ("B_Ts", "arr2"))
FORCING = tuple(nm for nm, _ in FLUX_ARGS if nm not in ("T0",))
FLUXES = ("Li", "Lo", "H", "LE", "B", "QRR", "rho", "Lv", "L", "Cs_t", "Cs_q", "q0", "q2")


def vapour_pressure(o, T):
    return o.num(6.112) * o.ite(
        o.sle(o.num(273.16), T),
        o.exp(o.div(o.num(17.67) * (T - o.num(273.16)), T - o.num(29.66))),
        o.exp(o.div(o.num(22.46) * (T - o.num(273.16)), T - o.num(0.55))))


def valid_forcing(o, a):
    return [
        ("temperatures plausible", o.and_(o.sle(o.num(150), a.T0), o.sle(o.num(150), a.T2), o.sle(a.T0, o.num(400)), o.sle(a.T2, o.num(400)))),
        ("time step > 0", o.pos(a.dt)),
        ("measurement height above the roughness length", o.and_(o.pos(a.z0), o.slt(a.z0, a.z))),
        ("relative humidity in [0, 100]", o.and_(o.sle(o.num(0), a.rH2), o.sle(a.rH2, o.num(100)))),
        ("pressure above the vapour pressures", o.and_(o.slt(vapour_pressure(o, a.T0), a.p), o.slt(vapour_pressure(o, a.T2), a.p))),
        ("wind >= 0", o.sle(o.num(0), a.u2)),
        ("rain >= 0", o.sle(o.num(0), a.RAIN)),
        ("slope in [0, 90)", o.and_(o.sle(o.num(0), a.SLOPE), o.slt(a.SLOPE, o.num(90)))),
    ]


class EbFluxes(Spec):
    """signs, zero points and formulas of the surface fluxes (bulk Richardson correction)"""
    prop = "C12"
    module, qual = MOD, "eb_fluxes"
    args = FLUX_ARGS + (("LWin", "np"), ("N", "none"))
    cases = ({"stability_correction": "Ri"}, {"stability_correction": "Ri", "thermal_conductivity_method": "empirical"})
    sym_consts = ("zlt1", "zlt2")
    functionals = ()
    result = None

    def const_requires(self, o):
        return [("zlt1 > 0", o.pos(o.const("zlt1"))), ("zlt2 > zlt1", o.pos(o.const("zlt2") - o.const("zlt1")))]

    def requires(self, o, old, a):
        return valid_layers(o, old) + valid_forcing(o, a)

    def ensures(self, o, old, new, a, res):
        Li, Lo, H, LE, B, QRR, rho_, Lv, L, Cs_t, Cs_q, q0, q2 = res
        return self.common(o, old, a, res) + self.turbulent(o, a, res)

    def common(self, o, old, a, res):
        Li, Lo, H, LE, B, QRR, rho_, Lv, L, Cs_t, Cs_q, q0, q2 = res
        z0 = o.num(0)
        b = o.seq(a.B_Ts)
        t4 = a.T0 * a.T0 * a.T0 * a.T0
        melting = o.const("zero_temperature")
        out = [
            ("outgoing longwave = - emissivity * sigma * T^4", o.eq(Lo, -o.const("surface_emission_coeff") * o.const("sigma") * t4)),
            ("rain heat flux", o.eq(QRR * a.dt * 1000, o.const("water_density") * o.const("spec_heat_water") * a.RAIN * (a.T2 - a.T0))),
            ("no ground heat flux in an isothermal profile", o.implies(o.and_(o.ieq(b.at(0), a.T0), o.ieq(b.at(1), a.T0)), o.eq(B, z0))),
            ("ground heat flux towards the surface from a warmer subsurface",
             o.implies(o.and_(o.slt(a.T0, b.at(0)), o.sle(b.at(0), b.at(1))), o.pos(B))),
            ("ground heat flux into a colder subsurface",
             o.implies(o.and_(o.slt(b.at(0), a.T0), o.sle(b.at(1), b.at(0))), o.pos(-B))),
            ("latent heat of vaporisation at melting", o.implies(o.sle(melting, a.T0), o.eq(Lv, o.const("lat_heat_vaporize")))),
            ("latent heat of sublimation below melting", o.implies(o.slt(a.T0, melting), o.eq(Lv, o.const("lat_heat_sublimation")))),
        ]
        if a.LWin is not None:
            out.append(("incoming longwave as measured", o.eq(Li, a.LWin)))
        return out

    def turbulent(self, o, a, res):
        Li, Lo, H, LE, B, QRR, rho_, Lv, L, Cs_t, Cs_q, q0, q2 = res
        z0 = o.num(0)
        out = []
        # Ri = 9.81 (T2 - T0) z / (T2 u2^2), compared without dividing
        num, den = o.num(9.81) * (a.T2 - a.T0) * a.z, a.T2 * a.u2 * a.u2
        damped = o.and_(o.pos(a.u2), o.slt(o.num(0.2) * den, num))
        active = o.and_(o.pos(a.u2), o.slt(num, o.num(0.2) * den))
        for nm, F, d, hi, lo in (("sensible", H, "temperature", a.T2, a.T0), ("latent", LE, "humidity", q2, q0)):
            out += [
                (f"{nm} heat flux not negative for air above surface {d}", o.implies(o.slt(lo, hi), o.le(z0, F))),
                (f"{nm} heat flux not positive for air below surface {d}", o.implies(o.slt(hi, lo), o.le(F, z0))),
                (f"{nm} heat flux positive unless damped", o.implies(o.and_(active, o.slt(lo + o.num(0 if o.symbolic else 1e-6), hi)), o.pos(F))),
                (f"{nm} heat flux negative unless damped", o.implies(o.and_(active, o.slt(hi + o.num(0 if o.symbolic else 1e-6), lo)), o.pos(-F))),
                (f"no {nm} heat flux without gradient", o.implies(o.ieq(lo, hi), o.eq(F, z0))),
                (f"no {nm} heat flux without wind", o.implies(o.ieq(a.u2, 0), o.eq(F, z0))),
                (f"no {nm} heat flux above the critical Richardson number", o.implies(damped, o.eq(F, z0))),
            ]
        return out

    def gen(self, rng):
        zero = 273.16
        T0 = rng.choice([rng.uniform(230, zero), zero, rng.uniform(zero, 280), rng.uniform(255, 273)])
        T2 = rng.choice([T0, rng.uniform(230, 300), T0 + rng.uniform(-3, 3)])
        b0 = rng.choice([T0, rng.uniform(240, zero), T0 + rng.uniform(-4, 4)])
        b1 = rng.choice([b0, rng.uniform(240, zero), b0 + rng.uniform(-2, 2)])
        u2 = rng.choice([0.0, rng.uniform(0, 1), rng.uniform(1, 15), rng.uniform(0.01, 3)])
        z = rng.choice([2.0, rng.uniform(1, 10)])
        if u2 > 0 and rng.random() < 0.3:     # around the limits of the stability correction
            ri = rng.choice([0.2, 0.2001, 0.1999, 0.01, 0.0101, 0.1, -0.1])
            d = min(max(ri * T2 * u2 * u2 / 9.81 / z, -25), 25)
            T2 = T0 + d
        x = {"T0": T0, "dt": rng.choice([3600.0, 600.0, 1800.0]), "z": z, "z0": rng.choice([0.0017, 0.00024, rng.uniform(1e-4, 5e-3)]),
             "T2": T2, "rH2": rng.choice([0.0, 100.0, rng.uniform(10, 100), rng.uniform(10, 100)]), "p": rng.uniform(400, 1000), "u2": u2,
             "RAIN": rng.choice([0.0, rng.uniform(0, 5)]), "SLOPE": rng.choice([0.0, rng.uniform(0, 89)]), "B_Ts": [b0, b1],
             "LWin": rng.uniform(100, 400), "N": None}
        return {"layers": rand_column(rng), "props": rand_props(rng), "args": self.adapt(rng, x),
                "consts": pooled(rng, type(self).__name__, lambda r: dict(r.choice(self.cases)) | r.choice([{}, {"zlt1": 0.05, "zlt2": 0.3}]), 4)}

    def adapt(self, rng, x):
        return x


class EbFluxesCloud(EbFluxes):
    """incoming longwave from cloud cover and humidity"""
    args = FLUX_ARGS + (("LWin", "none"), ("N", "np"))
    cases = ({"stability_correction": "Ri"},)
    search_seconds = 4

    def requires(self, o, old, a):
        return super().requires(o, old, a) + [("cloud cover in [0, 1]", o.and_(o.sle(o.num(0), a.N), o.sle(a.N, o.num(1))))]

    def ensures(self, o, old, new, a, res):
        Ea = o.div(a.rH2 * vapour_pressure(o, a.T2), o.num(100))
        cs = o.num(0.23) + o.num(0.433) * o.pow(o.div(o.num(100) * Ea, a.T2), 0.125)
        N2 = a.N * a.N
        t4 = a.T2 * a.T2 * a.T2 * a.T2
        return self.common(o, old, a, res) + [
            ("incoming longwave from cloud cover and humidity (Konzelmann)",
             o.eq(res[0], (cs * (1 - N2) + o.num(0.984) * N2) * o.const("sigma") * t4))]

    def adapt(self, rng, x):
        x.update(LWin=None, N=rng.choice([0.0, 1.0, rng.uniform(0, 1)]))
        return x


class EbFluxesMO(EbFluxes):
    """the clauses that do not depend on the stability scheme, with Monin-Obukhov correction"""
    cases = ({"stability_correction": "MO"},)
    partial = True
    nan_ok = True
    search_seconds = 4
    note = "EbFluxesMO: definedness (no division by zero / log of a non-positive number inside the Monin-Obukhov iteration) is assumed"

    def stubs(self, o, ctx):
        # the clauses hold whatever the stability functions return
        return {nm: (lambda I, args, kw: ctx.real("stab")) for nm in ("phi_m", "phi_tq", "ustar", "MO")}

    def ensures(self, o, old, new, a, res):
        return self.common(o, old, a, res)


class EbFluxesSlope(EbFluxes):
    """turbulent fluxes are proportional to the cosine of the slope"""
    cases = ({"stability_correction": "Ri"},)
    sym_consts = ()
    search_seconds = 4

    def const_requires(self, o):
        return []

    def drive(self, run, a):
        f = lambda s: run(*[s if nm == "SLOPE" else getattr(a, nm) if k != "np" else self.npf(run, getattr(a, nm)) for nm, k in self.args])
        return f(a.SLOPE), f(0)

    @staticmethod
    def npf(run, x):
        if hasattr(run, "f"):
            import numpy as np
            return np.array([x])[0]
        return x

    def ensures(self, o, old, new, a, res):
        r, flat = res
        c = o.cos(o.radians(a.SLOPE))
        return [("sensible heat flux proportional to the cosine of the slope", o.eq(r[2], flat[2] * c)),
                ("latent heat flux proportional to the cosine of the slope", o.eq(r[3], flat[3] * c)),
                ("other fluxes do not depend on the slope", o.and_(*[o.eq(r[i], flat[i]) for i in (0, 1, 4, 5)]))]


# ---------------------------------------------------------------- C13
SOLVE_ARGS = (("dt", "real"), ("z", "real"), ("z0", "real"), ("T2", "np"), ("rH2", "real"), ("p", "real"), ("SWnet", "real"),
              ("u2", "real"), ("RAIN", "real"), ("SLOPE", "real"))
METHODS = ("Newton", "Secant", "SLSQP", "L-BFGS-B")
FORCED = ("dt", "z", "z0", "T2", "rH2", "p", "u2", "RAIN", "SLOPE", "B_Ts", "LWin", "N")


class FluxModel:
    """eb_fluxes as 13 arbitrary functions of its arguments and the top layer (its contract: C12)"""

    def __init__(self, o, ctx):
        self.o, self.ctx = o, ctx

    def __call__(self, T0, forcing, top):
        import z3
        from pyvc.values import zr, Arr
        flat = [T0] + list(top)
        for x in forcing:
            if isinstance(x, (list, tuple)):
                flat += list(x)
            elif isinstance(x, Arr):
                flat += [x.at(0), x.at(1)] if x.n == 2 else [x.at(0)]
            else:
                flat.append(x)
        flat = [z3.Real("missing") if x is None else zr(x) for x in flat]
        return [z3.Function(f"flux_{nm}", *([z3.RealSort()] * (len(flat) + 1)))(*flat) for nm in FLUXES]

    def stub(self):
        from .base import FIELDS
        from pyvc.values import Arr

        def eb_fluxes(I, args, kw):
            names = ["GRID", "T0"] + list(FORCED)
            env = dict(zip(names, args)) | kw
            env.setdefault("LWin", None)
            env.setdefault("N", None)
            T0 = env["T0"]
            T0 = T0.at(0) if isinstance(T0, Arr) else T0
            from pyvc.prove import view
            c = view(env["GRID"])
            return tuple(self(T0, [env[f] for f in FORCED], [c.h(0), c.f(0), c.w(0)]))

        return eb_fluxes


def subsurface_stub(o, ctx):
    """interp_subT: two values that depend on the column only (its contract: C14)"""
    import z3
    from pyvc.prove import view

    def interp_subT(I, args, kw):
        from .base import FIELDS
        c, old = view(args[0]), ctx.spec_old
        same = o.and_(o.ieq(c.n, old.n))
        ctx.oblige("subsurface temperatures are taken from the given column", same, kind="post")
        ctx.oblige("subsurface temperatures are taken from the given column (layers)",
                   o.forall(0, old.n, lambda i: same_rec(o, c, i, old, i, ("height", "temperature"))), kind="post")
        return I.lib.to_arr([z3.Real("B_Ts0"), z3.Real("B_Ts1")])

    return interp_subT


def solver_stubs(o, ctx, spec):
    """the library's root finder and minimiser: any result, or failure; what they are asked to solve is checked"""
    import z3
    from pyvc.values import Arr, Obj, PyRaise, zr

    def objective(I, func, args, what, magnitude):
        a = ctx.spec_args
        col = ctx.spec_old
        t = ctx.real("trial")
        v = I.call(func, [I.lib.to_arr([t])] + list(args), {})
        v = v.at(0) if isinstance(v, Arr) else v
        forcing = [a.__dict__.get(f) for f in FORCED]
        forcing[FORCED.index("B_Ts")] = [z3.Real("B_Ts0"), z3.Real("B_Ts1")]
        fl = FluxModel(o, ctx)(t, forcing, [col.h(0), col.f(0), col.w(0)])
        tot = a.SWnet + sum(fl[:6])
        if magnitude:
            tot = o.abs(tot)
        ctx.oblige(f"{what} is given the residual of the energy balance", o.eq(v, tot), kind="post")

    def newton(I, args, kw):
        objective(I, args[0], kw.get("args", ()), "root finder", False)
        if ctx.branch(ctx.int("converged") > 0):
            return I.lib.to_arr([ctx.real("root")])
        raise PyRaise("RuntimeError")

    def secant(I, args, kw):
        objective(I, args[0], kw.get("args", args[2] if len(args) > 2 else ()), "root finder", False)
        if ctx.branch(ctx.int("converged") > 0):
            return I.lib.to_arr([ctx.real("root")])
        raise PyRaise("RuntimeError")

    def minimize(I, args, kw):
        objective(I, args[0], kw.get("args", ()), "minimiser", True)
        x = ctx.real("x")
        b = kw.get("bounds")
        if b is not None:
            ctx.assume(zr(b[0][0]) <= x)
            ctx.assume(x <= zr(b[0][1]))
        ob = Obj("OptimizeResult", {"x": I.lib.to_arr([x]), "fun": ctx.real("fun")}, tag=ctx.alloc_tag("res"))
        return ob

    return {"scipy.optimize.newton": newton, "scipy.optimize.minimize": minimize, "secant": secant,
            "eb_fluxes": FluxModel(o, ctx).stub(), "interp_subT": subsurface_stub(o, ctx)}


class SurfaceTemperature(Spec):
    """bounds, storage and flux consistency for whatever the solver returns"""
    prop = "C13"
    module, qual = MOD, "update_surface_temperature"
    args = SOLVE_ARGS + (("LWin", "np"), ("N", "none"))
    cases = tuple({"sfc_temperature_method": m} for m in METHODS)
    modifies = ("temperature",)
    functionals = ("H",)
    search_seconds = 6
    note = ("scipy.optimize.newton/minimize and cosipy's secant may return anything (or fail); assumed: a minimiser's result respects the bounds it is "
            "given and the objective is only evaluated; eb_fluxes and interp_subT enter as functions of their arguments and the column (contracts of C12, C14)")

    def requires(self, o, old, a):
        out = valid_layers(o, old) + [("two layers", o.ge(old.n, 2))]
        if not o.symbolic:
            out += valid_forcing(o, type("V", (), {**a.__dict__, "T0": old.T(0)}))
            out += [("interpolation depths inside the column", old.h(0) <= o.const("zlt1") and old.H >= o.const("zlt2"))]
        return out

    def stubs(self, o, ctx):
        return solver_stubs(o, ctx, self)

    def fluxes(self, o, old, new, a, Ts):
        if o.symbolic:
            import z3
            forcing = [a.__dict__.get(f) for f in FORCED]
            forcing[FORCED.index("B_Ts")] = [z3.Real("B_Ts0"), z3.Real("B_Ts1")]
            return FluxModel(o, o.ctx)(Ts, forcing, [old.h(0), old.f(0), old.w(0)])
        import numpy as np
        m = o.env.mod(MOD)
        rows = lambda c: [[c._get(f, i) for f in FIELDS] for i in range(c.n)]
        b = m.interp_subT(o.env.grid(rows(old), [0, 0, 0]))
        g = o.env.grid(rows(old), [0, 0, 0])
        return m.eb_fluxes(g, np.array([Ts]), a.dt, a.z, a.z0, np.float64(a.T2), a.rH2, a.p, a.u2, a.RAIN, a.SLOPE, b,
                           None if a.LWin is None else np.float64(a.LWin), None if a.N is None else np.float64(a.N))

    def ensures(self, o, old, new, a, res):
        Ts = o.seq(res[1]).at(0)
        fl = self.fluxes(o, old, new, a, Ts)
        f1 = lambda x: x if o.symbolic or x is None else float(np_item(x))
        out = [
            ("surface temperature not above melting", o.sle(Ts, o.const("zero_temperature"))),
            ("surface temperature not below 220 K", o.le(o.num(220), Ts)),
            ("stored in the top layer", o.eq(new.T(0), Ts)),
            ("temperatures below unchanged", o.forall(1, old.n, lambda i: o.eq(new.T(i), old.T(i)))),
            ("fifteen results", o.ieq(len(res), 15)),
        ]
        for j, nm in enumerate(FLUXES):
            if not o.symbolic and j == 0 and a.SWnet + float(sum(map(np_item, self.fluxes(o, old, new, a, 220.0)[:6]))) < -5:
                out.append(("bounded minimisation ends at the bound when the balance is negative everywhere above it", Ts < 225))
            out.append((f"{nm} is that of the returned temperature and given forcing", o.eq(f1(res[2 + j]), f1(fl[j]))))
        return out

    def gen(self, rng):
        T2 = rng.choice([rng.uniform(225, 290), rng.uniform(255, 275), rng.uniform(200, 235)])
        cold = T2 < 240
        c = rand_column(rng, 2, 7)
        c[0][0] = rng.uniform(0.005, 0.06)
        c[-1][0] += 0.3
        for l in c:
            l[1] = min(l[1], max(T2, 200) + 8)
        lw = rng.uniform(20, 120) if cold else rng.uniform(120, 350)
        x = {"dt": rng.choice([3600.0, 600.0]), "z": 2.0, "z0": rng.uniform(1e-4, 4e-3), "T2": T2, "rH2": rng.uniform(10, 100),
             "p": rng.uniform(400, 1000), "SWnet": rng.choice([0.0, rng.uniform(0, 700)]), "u2": rng.choice([0.0, rng.uniform(0, 12)]),
             "RAIN": rng.choice([0.0, rng.uniform(0, 4)]), "SLOPE": rng.choice([0.0, rng.uniform(0, 60)]), "LWin": lw, "N": None}
        if dict(self.args)["LWin"] == "none":
            x.update(LWin=None, N=rng.choice([0.0, 1.0, rng.uniform(0, 1)]))
        return {"layers": c, "props": rand_props(rng), "args": x,
                "consts": pooled(rng, type(self).__name__, lambda r: dict(self.cases[len(_POOL[type(self).__name__])]), 4)}


def np_item(x):
    return x.item() if hasattr(x, "item") else x


class SurfaceTemperatureCloud(SurfaceTemperature):
    """the same with incoming longwave from cloud cover"""
    args = SOLVE_ARGS + (("LWin", "none"), ("N", "np"))


class ResidualClip(Spec):
    """a root below the lower bound is rejected"""
    prop = "C13"
    module, qual = MOD, "check_residual_clip"
    args = (("residual", "real"), ("lower_bound", "real"))
    has_grid = False
    functionals = ()

    def requires(self, o, old, a):
        return []

    def ensures(self, o, old, new, a, res):
        return [("accepted only at or above the bound", o.sle(a.lower_bound, a.residual))]

    def on_raise(self, o, old, a, kind):
        if kind != "ValueError":
            return None
        return o.slt(a.residual, a.lower_bound) if o.symbolic else a.residual < a.lower_bound

    def gen(self, rng):
        return {"layers": [], "props": [0, 0, 0], "args": {"residual": rng.choice([220.0, rng.uniform(100, 300)]), "lower_bound": 220.0}, "consts": {}}


class Residual(Spec):
    """what the solvers drive to zero: the sum of net shortwave and the six fluxes at the trial temperature"""
    prop = "C13"
    module, qual = MOD, "eb_optim"
    args = (("T0", "np"),) + SOLVE_ARGS + (("B_Ts", "arr2"), ("LWin", "np"), ("N", "none"))
    cases = tuple({"sfc_temperature_method": m} for m in METHODS)
    functionals = ()
    search_seconds = 3

    def requires(self, o, old, a):
        return valid_layers(o, old) + ([] if o.symbolic else valid_forcing(o, a))

    def stubs(self, o, ctx):
        return {"eb_fluxes": FluxModel(o, ctx).stub()}

    def sym_call_args(self, grid, a):
        return [a.T0, grid] + [a[nm] for nm, _ in self.args[1:]]

    def invoke(self, env, inp):
        import numpy as np
        a = inp["args"]
        kinds = dict(self.args)
        v = {nm: np.float64(a[nm]) if kinds[nm] == "np" else np.array(a[nm], float) if kinds[nm] == "arr2" else a[nm] for nm in kinds}
        g = env.grid(inp["layers"], inp["props"])
        exc = res = None
        with np.errstate(all="ignore"):
            try:
                res = env.mod(MOD).eb_optim(np.array([v["T0"]]), g, *[v[nm] for nm, _ in self.args[1:]])
            except Exception as e:  # noqa: BLE001
                exc = type(e).__name__
                env.last_exc = repr(e)
        return res, exc, env.layers(g), int(g.number_nodes), env.props(g)

    def ensures(self, o, old, new, a, res):
        if o.symbolic:
            fl = FluxModel(o, o.ctx)(a.T0, [a.__dict__.get(f) for f in FORCED], [old.h(0), old.f(0), old.w(0)])
        else:
            import numpy as np
            rows = [[old._get(f, i) for f in FIELDS] for i in range(old.n)]
            fl = o.env.mod(MOD).eb_fluxes(o.env.grid(rows, [0, 0, 0]), np.array([a.T0]), a.dt, a.z, a.z0, np.float64(a.T2), a.rH2, a.p, a.u2,
                                          a.RAIN, a.SLOPE, np.array(a.B_Ts), None if a.LWin is None else np.float64(a.LWin),
                                          None if a.N is None else np.float64(a.N))
        tot = a.SWnet + sum(fl[:6])
        if o.const("sfc_temperature_method") not in ("Newton", "Secant"):
            tot = o.abs(tot)
        return [("residual of the energy balance", o.eq(res if o.symbolic else float(np_item(res)), tot if o.symbolic else float(np_item(tot))))]

    def gen(self, rng):
        inp = EbFluxes.gen(EBF, rng)
        inp["args"]["SWnet"] = rng.choice([0.0, rng.uniform(0, 700)])
        if dict(self.args)["LWin"] == "none":
            inp["args"].update(LWin=None, N=rng.choice([0.0, 1.0, rng.uniform(0, 1)]))
        inp["consts"] = pooled(rng, type(self).__name__, lambda r: dict(self.cases[len(_POOL[type(self).__name__])]), 4)
        return inp


EBF = EbFluxes()


class ResidualCloud(Residual):
    """the same with incoming longwave from cloud cover"""
    args = (("T0", "np"),) + SOLVE_ARGS + (("B_Ts", "arr2"), ("LWin", "none"), ("N", "np"))
