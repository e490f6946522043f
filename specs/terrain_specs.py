"""C22: sun position, diffuse fraction, slope correction, distances (cosipy/modules/radCor.py)"""
from .base import *

RAD = "cosipy.modules.radCor"


class _Rad(Spec):
    module, prop = RAD, "C22"
    has_grid = False
    search_seconds = 2
    functionals = ()
    note = ("radCor: sin, cos, asin, atan2 and sqrt by the axioms of pyvc/ctx.py (signs, parity, monotonicity, sin(asin x) = x, sin^2+cos^2 = 1); "
            "the solar declination and equation of time formulas are taken from the code")


def solar_declination(o, day):
    fac = o.radians(o.num(1))
    return o.asin(o.num(0.39785) * o.sin((o.num(278.97) + o.num(0.9856) * day + o.num(1.9165) * o.sin((o.num(356.6) + o.num(0.9856) * day) * fac)) * fac))


class SunPosition(_Rad):
    """the sun at some hour, at noon and at the hour that mirrors it"""
    qual = "solarFParallel"
    args = (("lat", "real"), ("lon", "real"), ("tz", "real"), ("day", "int"), ("hour", "real"), ("noon", "real"), ("mirror", "real"))

    def requires(self, o, old, a):
        return [("latitude", o.and_(o.slt(o.num(-90), a.lat), o.slt(a.lat, o.num(90)))),
                ("hour", o.and_(o.sle(o.num(0), a.hour), o.sle(a.hour, o.num(24)))),
                ("noon", a.noon == 12), ("mirrored hour", a.mirror == 24 - a.hour)]

    def drive(self, run, a):
        return [run(a.lat, a.lon, a.tz, a.day, h) for h in (a.hour, a.noon, a.mirror)]

    def ensures(self, o, old, new, a, res):
        (b, z, az), (bn, zn, azn), (bm, zm, azm) = res
        half, full = o.radians(o.num(90)), o.radians(o.num(180))
        dec = solar_declination(o, a.day)
        lat, w = o.radians(a.lat), o.radians(o.num(15) * (a.hour - 12))
        cd, sd = o.cos(dec), o.sin(dec)
        west, south = cd * o.sin(w), o.sin(lat) * cd * o.cos(w) - o.cos(lat) * sd
        return [("elevation between nadir and zenith", o.and_(o.le(-half, b), o.le(b, half))),
                ("zenith angle is the complement of the elevation", o.eq(z + b, half)),
                ("azimuth within half a turn", o.and_(o.le(-full, az), o.le(az, full))),
                ("the sun is highest at noon", o.le(b, bn)),
                ("morning and afternoon mirror each other", o.near(b, bm)),
                ("due south or north at noon", o.or_(o.eq(azn, o.num(0)), o.eq(azn, full))),
                ("east in the morning, west in the afternoon", o.and_(
                    o.implies(o.and_(o.slt(a.hour, o.num(12)), o.slt(o.num(0), a.hour)), o.le(az, o.num(0))),
                    o.implies(o.and_(o.slt(o.num(12), a.hour), o.slt(a.hour, o.num(24))), o.le(o.num(0), az)))),
                ("sine of the elevation", o.eq(o.sin(b), o.sin(lat) * sd + o.cos(lat) * cd * o.cos(w))),
                ("azimuth is the horizontal direction of the sun", o.near(o.sin(az) * south, o.cos(az) * west)),
                ("azimuth is not the opposite direction", o.le(o.num(0), o.sin(az) * west + o.cos(az) * south))]

    def gen(self, rng):
        h = rng.choice([0.0, 12.0, 24.0, float(rng.randint(0, 24)), rng.uniform(0, 24)])
        return {"args": {"lat": rng.choice([rng.uniform(-89.9, 89.9), 0.0, 47.0, rng.uniform(-30, 30)]), "lon": rng.uniform(-180, 180),
                         "tz": rng.uniform(-180, 180), "day": rng.randint(1, 366), "hour": h, "noon": 12.0, "mirror": 24.0 - h}}


P4 = 0.2465


def clearness(o, doy, zeni, rg):
    pot = o.num(1367) * (1 + o.num(0.033) * o.cos(o.div(2 * o.radians(o.num(180)) * doy, o.num(366)))) * o.cos(zeni)
    return o.div(rg, pot)


def diffuse(o, doy, zeni, rg):
    """Wohlfahrt et al. (2016), Eq. C1, parameters of Neustift"""
    p4, ci = o.num(P4), clearness(o, doy, zeni, rg)
    f = o.exp(-o.exp(o.num(0.1001) - (o.num(4.7930) - o.num(9.4758) * o.min(ci, o.num(50))))) * (1 - p4) + p4
    return o.ite(o.sle(ci, o.num(50)), f, p4)


class DiffuseFraction(_Rad):
    """two radiation values at the same sun"""
    qual = "Fdif_Neustift"
    args = (("doy", "int"), ("zeni", "real"), ("r1", "real"), ("r2", "real"))

    def requires(self, o, old, a):
        return [("sun above the horizon", o.and_(o.sle(o.num(0), a.zeni), o.slt(o.num(0), o.cos(a.zeni)))),
                ("0 <= r1 <= r2", o.and_(o.sle(o.num(0), a.r1), o.sle(a.r1, a.r2)))]

    def drive(self, run, a):
        return [run(a.doy, a.zeni, r) for r in (a.r1, a.r2)]

    def ensures(self, o, old, new, a, res):
        f1, f2 = res
        p4 = o.num(P4)
        return [("between the configured minimum and 1", o.and_(o.le(p4, f1), o.le(f1, o.num(1)))),
                ("the clearer the sky the smaller the diffuse part", o.le(f2, f1)),
                ("published function of the clearness index", o.eq(f1, diffuse(o, a.doy, a.zeni, a.r1)))]

    def gen(self, rng):
        r = rng.choice([0.0, rng.uniform(0, 1400), rng.expovariate(0.01)])
        return {"args": {"doy": rng.randint(1, 366), "zeni": rng.choice([0.0, rng.uniform(0, 1.57), 1.57 + rng.uniform(0, 7.9e-4)]),
                         "r1": r, "r2": r + rng.choice([0, rng.uniform(0, 600)])}}


class SlopeCorrection(_Rad):
    qual = "radCor2D"
    args = (("doy", "int"), ("zeni", "real"), ("azi", "real"), ("slope", "real"), ("aspect", "real"), ("rm", "real"), ("thld", "real"))

    def requires(self, o, old, a):
        return [("sun above the horizon", o.and_(o.sle(o.num(0), a.zeni), o.slt(o.num(0), o.cos(a.zeni)))),
                ("radiation not negative", o.sle(o.num(0), a.rm))]

    def ensures(self, o, old, new, a, res):
        sl, asp = o.radians(a.slope), o.radians(a.aspect)
        inc = o.cos(a.zeni) * o.cos(sl) + o.sin(a.zeni) * o.sin(sl) * o.cos(a.azi - asp)
        low = a.zeni > o.radians(a.thld)
        f = diffuse(o, a.doy, a.zeni, a.rm)
        ratio = o.div(inc, o.cos(a.zeni))
        return [("flat terrain: unchanged", o.implies(a.slope == 0, o.near(res, a.rm))),
                ("low sun: all diffuse, unchanged", o.implies(o.slt(o.radians(a.thld), a.zeni), o.near(res, a.rm))),
                ("only the beam part is scaled, by the cosine ratio", o.or_(low, o.near(res, a.rm * (1 - f) * ratio + a.rm * f))),
                ("slope facing away or towards the sun", o.and_(
                    o.implies(o.sle(o.cos(a.zeni), inc), o.le(a.rm, res)),
                    o.implies(o.sle(inc, o.cos(a.zeni)), o.le(res, a.rm)))),
                ("never below the diffuse part on slopes the sun reaches", o.implies(o.sle(o.num(0), inc), o.le(a.rm * f, res))),
                ("no radiation stays none", o.implies(a.rm == 0, o.near(res, o.num(0))))]

    def gen(self, rng):
        return {"args": {"doy": rng.randint(1, 366), "zeni": rng.choice([0.0, rng.uniform(0, 1.57), rng.uniform(1.5, 1.57)]), "azi": rng.uniform(-3.2, 3.2),
                         "slope": rng.choice([0.0, rng.uniform(0, 60)]), "aspect": rng.choice([0.0, rng.uniform(-180, 180)]),
                         "rm": rng.choice([0.0, rng.uniform(0, 1200)]), "thld": rng.choice([90.0, 89.0, rng.uniform(60, 90)])}}


class CorrectRadiation(_Rad):
    """the two helpers together"""
    qual = "correctRadiation"
    args = (("lat", "real"), ("lon", "real"), ("tz", "real"), ("doy", "int"), ("hour", "real"), ("slope", "real"), ("aspect", "real"), ("rm", "real"), ("thld", "real"))

    def requires(self, o, old, a):
        dec, lat, w = solar_declination(o, a.doy), o.radians(a.lat), o.radians(o.num(15) * (a.hour - 12))
        return [("latitude", o.and_(o.slt(o.num(-90), a.lat), o.slt(a.lat, o.num(90)))),
                ("sun above the horizon", o.slt(o.num(0), o.sin(lat) * o.sin(dec) + o.cos(lat) * o.cos(dec) * o.cos(w))),
                ("radiation not negative", o.sle(o.num(0), a.rm))]

    def ensures(self, o, old, new, a, res):
        return [("flat terrain: unchanged", o.implies(a.slope == 0, o.near(res, a.rm))),
                ("no radiation stays none", o.implies(a.rm == 0, o.near(res, o.num(0))))]

    def gen(self, rng):
        return {"args": {"lat": rng.uniform(-80, 80), "lon": rng.uniform(-180, 180), "tz": rng.uniform(-180, 180), "doy": rng.randint(1, 366),
                         "hour": rng.uniform(0, 24), "slope": rng.choice([0.0, 0.0, rng.uniform(0, 60)]), "aspect": rng.uniform(-180, 180),
                         "rm": rng.choice([0.0, rng.uniform(0, 1200)]), "thld": rng.choice([90.0, 89.0, rng.uniform(60, 90)])}}


class Distance(_Rad):
    """there, back and to the same point"""
    qual = "haversine"
    args = (("lat1", "real"), ("lon1", "real"), ("lat2", "real"), ("lon2", "real"))

    def requires(self, o, old, a):
        ok = lambda x, m: o.and_(o.sle(o.num(-m), x), o.sle(x, o.num(m)))
        return [("latitudes", o.and_(ok(a.lat1, 90), ok(a.lat2, 90))), ("longitudes", o.and_(ok(a.lon1, 360), ok(a.lon2, 360)))]

    def lemmas(self, o, old, a):
        """half-angle and addition formulas"""
        p1, p2, l1, l2 = (o.radians(x) for x in (a.lat1, a.lat2, a.lon1, a.lon2))
        half = lambda x: o.near(2 * o.sin(o.div(x, o.num(2))) * o.sin(o.div(x, o.num(2))), 1 - o.cos(x))
        c1, c2, s1, s2 = o.cos(p1), o.cos(p2), o.sin(p1), o.sin(p2)
        up = lambda x: o.implies(o.and_(o.sle(o.radians(o.num(-90)), x), o.sle(x, o.radians(o.num(90)))), o.sle(o.num(0), o.cos(x)))
        return [half(p2 - p1), half(l2 - l1), o.near(o.cos(p2 - p1), c1 * c2 + s1 * s2), o.near(o.cos(p1 + p2), c1 * c2 - s1 * s2),
                up(p1), up(p2)]

    def drive(self, run, a):
        return [run(a.lat1, a.lon1, a.lat2, a.lon2), run(a.lat2, a.lon2, a.lat1, a.lon1), run(a.lat1, a.lon1, a.lat1, a.lon1)]

    def ensures(self, o, old, new, a, res):
        there, back, zero = res
        return [("not negative", o.and_(o.le(o.num(0), there))), ("same distance back", o.near(there, back)), ("zero for identical points", o.eq(zero, o.num(0))),
                ("at most half the circumference", o.le(there, o.num(6371000) * o.radians(o.num(180))))]

    def gen(self, rng):
        a = {"lat1": rng.uniform(-90, 90), "lon1": rng.uniform(-180, 180)}
        k = rng.random()
        a["lat2"] = a["lat1"] if k < 0.2 else -a["lat1"] if k < 0.3 else rng.uniform(-90, 90)
        a["lon2"] = a["lon1"] if k < 0.1 else a["lon1"] - 180 if k < 0.3 else rng.uniform(-180, 180)
        return {"args": a}


class MoelgRadiation(Spec):
    """bounded: array code of the Moelg scheme, executed on small random grids"""
    prop, module, qual = "C22", RAD, "calcRad"
    bounded_only = True
    has_grid = False
    search_seconds = 6
    note = "calcRad: air pressure consistent with the altitude; calcRad, relshad, LUTsvf, solpars (masked NumPy arrays): bounded, executed on random grids up to 9x9; not proved"

    def gen(self, rng):
        ny, nx = rng.randint(7, 9), rng.randint(7, 9)
        flat = rng.random() < 0.3
        g = lambda f: [[f() for _ in range(nx)] for _ in range(ny)]
        base = rng.uniform(0, 5000)
        return {"args": {
            "lat": rng.uniform(-60, 60), "doy": rng.randint(1, 366), "hour": rng.randint(0, 23), "tcart": rng.uniform(-15, 15),
            "dem": g(lambda: base if flat else base + rng.uniform(0, 1500)), "flat": flat,
            "slope": g(lambda: 0.0 if flat else rng.uniform(0, 60)), "aspect": g(lambda: rng.uniform(0, 360)),
            "mask": g(lambda: rng.choice([0, 1, 1])), "shade": g(lambda: rng.choice([0.0, 1.0])),
            "cloud": g(lambda: rng.choice([0.0, 1.0, rng.uniform(0, 1)])), "svf": g(lambda: 1.0 if flat else rng.uniform(0.3, 1)),
            "T": g(lambda: rng.uniform(240, 290)), "RH": g(lambda: rng.uniform(5, 100)),
            "P": g(lambda: 1013 * math.exp(-base / 8000) * rng.uniform(0.95, 1.0)),
            "sun": [rng.uniform(1, 89), rng.uniform(-180, 540)], "svf_run": rng.random() < 0.01}}

    def check_concrete(self, get_env, inp):
        import numpy as np
        m = get_env({}, None).mod(RAD)
        a = {k: np.array(v, float) if isinstance(v, list) and isinstance(v[0], list) else v for k, v in inp["args"].items()}
        ny, nx = a["dem"].shape
        on = a["mask"] == 1
        lats, lons = 47 + 0.01 * np.arange(ny)[::-1], 11 + 0.01 * np.arange(nx)
        sol, tc = m.solpars(a["lat"])
        if not (np.all(sol[:, 2] > 0.9) and np.all(sol[:, 2] < 1.1) and np.all(np.abs(sol[:, 4]) < 24)):
            return "fail", "eccentricity within 10 % of one, declination within 24 degrees", None
        if not (np.array_equal(sol[365], sol[364]) and np.array_equal(tc[365], tc[364])):
            return "fail", "day 366 repeats day 365", None
        inner = on.copy()
        inner[:3] = inner[-3:] = inner[:, :3] = inner[:, -3:] = False    # the profile towards the sun needs surrounding terrain
        glacier = inner.astype(float)
        with np.errstate(all="ignore"):
            illu = m.relshad(a["dem"], glacier, lats, lons, *a["sun"])
        if not np.all(np.isin(illu[inner], (0, 1))):
            return "fail", "shading mask is 0 or 1", repr(illu)
        if a["flat"] and not np.all(illu[inner] == 1):
            return "fail", "flat terrain is never shaded", repr(illu)
        if a["svf_run"]:
            with np.errstate(all="ignore"):
                svf = m.LUTsvf(a["dem"], glacier, a["slope"], a["aspect"], lats, lons)
            if not (np.all(svf[inner] >= 0) and np.all(svf[inner] <= 1 + 1e-12)):
                return "fail", "sky view factor between 0 and 1", repr(svf)
            if a["flat"] and not np.allclose(svf[inner], 1):
                return "fail", "flat terrain sees the whole sky", repr(svf)
        shad = np.ones((366 * 24, ny, nx))
        slot = (a["doy"] - 1) * 24 + a["hour"]
        shad[slot] = a["shade"]
        run = lambda **k: self.run(m, {**a, **k}, sol, tc, k.pop("shadow", shad))[::-1]
        sun = self.sin_h(sol, tc, a)
        if abs(sun - 0.01) < 1e-9:
            return "skip", "sun at the threshold", None
        rad = run()
        if sun < 0.01:
            ok = np.all(rad[on] == 0)
            return ("ok", None, None) if ok else ("fail", "no radiation at night", repr(rad))
        if not np.all(rad[on] >= -1e-9):
            return "fail", "radiation is never negative", repr(rad)
        top = 1367 * sol[a["doy"] - 1, 2]
        if not np.all(rad[on] <= 2 * top):
            return "fail", "radiation bounded by the direct and diffuse solar constant", repr(rad)
        none = run(shadow=np.zeros_like(shad))
        if not np.all(none[on] <= rad[on] + 1e-9):
            return "fail", "a shaded cell gets no more than the diffuse part", repr((none, rad))
        dark = on & (a["shade"] == 0)
        if not np.allclose(rad[dark], none[dark], rtol=1e-12):
            return "fail", "a shaded cell gets the diffuse part", repr((none, rad))
        over = run(cloud=np.ones((ny, nx)))
        overs = run(cloud=np.ones((ny, nx)), shadow=np.zeros_like(shad))
        if not np.allclose(over[on], overs[on], rtol=1e-9, atol=1e-9):
            return "fail", "overcast sky: only diffuse radiation", repr((over, overs))
        lit = run(shadow=np.ones_like(shad))
        full = run(shadow=np.ones_like(shad), slope=np.zeros((ny, nx)))
        facing = self.cos_inc(sol, tc, a)
        more = on & (facing > sun)
        if not (np.all(lit[more] >= full[more] - 1e-6) and np.all(lit[on & ~more] <= full[on & ~more] + 1e-6)):
            return "fail", "slopes facing the sun gain, others lose", repr((lit, full))
        half = run(svf=a["svf"] * 0.5, shadow=np.zeros_like(shad))
        if not np.allclose(half[on], 0.5 * none[on]):
            return "fail", "diffuse part scales with the sky view factor", repr((half, none))
        return "ok", None, None

    @staticmethod
    def angles(sol, tc, a):
        d = a["doy"] - 1
        st = 180 + 7.5 - a["hour"] * 15 - tc[d, 3] + a["tcart"]
        return math.radians(st), math.radians(a["lat"]), sol[d, 3]

    def sin_h(self, sol, tc, a):
        s, lat, dec = self.angles(sol, tc, a)
        return math.sin(dec) * math.sin(lat) + math.cos(dec) * math.cos(lat) * math.cos(s)

    def cos_inc(self, sol, tc, a):
        """cosine between the sun and the slope's normal, from their vectors"""
        import numpy as np
        s, lat, dec = self.angles(sol, tc, a)
        up = self.sin_h(sol, tc, a)
        east = math.cos(dec) * math.sin(s)
        north = math.cos(lat) * math.sin(dec) - math.sin(lat) * math.cos(dec) * math.cos(s)
        sl, asp = np.radians(a["slope"]), np.radians(a["aspect"])
        return up * np.cos(sl) + np.sin(sl) * (north * np.cos(asp) + east * np.sin(asp))

    @staticmethod
    def run(m, a, sol, tc, shad):
        import numpy as np
        with np.errstate(all="ignore"):
            return np.asarray(m.calcRad(sol, tc, a["doy"], a["hour"], a["lat"], a["T"], a["P"], a["RH"], a["cloud"], a["dem"], a["mask"],
                                        a["slope"], a["aspect"], shad, a["svf"], 3600, a["tcart"]))
