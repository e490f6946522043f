"""C21: forcing preparation (cosipy/utilities/aws2cosipy, wrf2cosipy)"""
from .base import *

AWS = "cosipy.utilities.aws2cosipy.aws2cosipy"
WRF = "cosipy.utilities.wrf2cosipy.wrf2cosipy"


class _Forcing(Spec):
    prop, module = "C21", AWS
    has_grid = False
    functionals = ()
    search_seconds = 4

    def cfg(self, o, a):
        return {}

    def module_globals(self, o, a):
        return {"_cfg": self.cfg(o, a)}

    def call_args(self, a):
        return [a[nm] for nm, _ in self.args]

    def sym_call_args(self, grid, a):
        return self.call_args(a)

    def invoke(self, env, inp):
        import numpy as np
        from concrete.run import A
        m = env.mod(self.module)
        a = A({nm: np.array(inp["args"][nm], float) if k == "vec" else inp["args"][nm] for nm, k in self.args})
        o = NumOps(env.const_dict())
        saved = {}
        for k, v in self.module_globals(o, a).items():
            saved[k] = getattr(m, k)
            setattr(m, k, v)
        f = getattr(m, self.qual)
        res = exc = None
        try:
            with np.errstate(all="ignore"):
                res = self.drive(f, a) if getattr(self, "drive", None) else f(*self.call_args(a))
        except Exception as e:  # noqa: BLE001
            exc, env.last_exc = type(e).__name__, repr(e)
        finally:
            for k, v in saved.items():
                setattr(m, k, v)
        return res, exc, None, None, None


def vec(rng, f, nmax=8):
    return [f() for _ in range(rng.randint(1, nmax))]


LAPSES = ("lapse_T", "lapse_RH", "lapse_RRR", "lapse_SNOWFALL")


class LapseRate(_Forcing):
    """a series moved up and back down again"""
    qual = "set_bias"
    args = (("data", "vec"), ("dz", "real"), ("r0", "real"), ("r1", "real"), ("r2", "real"), ("r3", "real"))

    def cfg(self, o, a):
        return o.obj("cfg", lapse=dict(zip(LAPSES, (a.r0, a.r1, a.r2, a.r3))))

    def drive(self, run, a):
        out = []
        for nm in LAPSES:
            up = run(a.data, nm, a.dz, False)
            out.append((up, run(up, nm, -a.dz, False), run(a.data, nm, a.dz, True), run(a.data, nm, a.dz), run(a.data, nm), run(a.data, nm, limit=False)))
        return out

    def ensures(self, o, old, new, a, res):
        d, out = o.seq(a.data), []
        for nm, r, x in zip(LAPSES, (a.r0, a.r1, a.r2, a.r3), res):
            up, back, lim, dflt, here, here2 = [o.seq(y) for y in x]
            every = lambda f: o.forall(0, d.n, f)
            out += [(f"{nm}: same length", o.and_(*[o.ieq(y.n, d.n) for y in (up, back, lim, dflt, here, here2)])),
                    (f"{nm}: data plus lapse rate times altitude difference", every(lambda i: o.eq(up.at(i), d.at(i) + a.dz * r))),
                    (f"{nm}: up and back down is the identity", every(lambda i: o.near(back.at(i), d.at(i)))),
                    (f"{nm}: limited to non-negative values", every(lambda i: o.and_(o.le(o.num(0), lim.at(i)), o.eq(lim.at(i), o.max(up.at(i), o.num(0))), o.eq(dflt.at(i), lim.at(i))))),
                    (f"{nm}: no altitude difference, no change", every(lambda i: o.and_(o.eq(here2.at(i), d.at(i)), o.eq(here.at(i), o.max(d.at(i), o.num(0))))))]
        return out

    def gen(self, rng):
        return {"args": {"data": vec(rng, lambda: rng.choice([0.0, rng.uniform(-5, 300)])), "dz": rng.choice([0.0, rng.uniform(-2000, 3000)]),
                         **{f"r{i}": rng.uniform(-0.1, 0.1) for i in range(4)}}}


class LapseRateField(_Forcing):
    """one value spread over a field of altitudes"""
    qual = "set_bias"
    args = (("data", "real"), ("dz", "vec"), ("rate", "real"))

    def cfg(self, o, a):
        return o.obj("cfg", lapse={"lapse_T": a.rate})

    def drive(self, run, a):
        return run(a.data, "lapse_T", a.dz, False), run(a.data, "lapse_T", a.dz, True)

    def ensures(self, o, old, new, a, res):
        z, f, g = o.seq(a.dz), o.seq(res[0]), o.seq(res[1])
        return [("one value per cell", o.and_(o.ieq(f.n, z.n), o.ieq(g.n, z.n))),
                ("value plus lapse rate times altitude difference", o.forall(0, z.n, lambda i: o.eq(f.at(i), a.data + z.at(i) * a.rate))),
                ("limited to non-negative values", o.forall(0, z.n, lambda i: o.eq(g.at(i), o.max(f.at(i), o.num(0)))))]

    def gen(self, rng):
        return {"args": {"data": rng.uniform(-5, 300), "dz": vec(rng, lambda: rng.choice([0.0, rng.uniform(-2000, 3000)])), "rate": rng.uniform(-0.1, 0.1)}}


class PressureBias(_Forcing):
    """a series at the station, at sea level, and at two altitudes"""
    qual = "get_pressure_bias"
    args = (("data", "vec"), ("station", "real"), ("sea", "real"), ("lo", "real"), ("hi", "real"))
    note = "pressure: the power 5.255 enters by sign and monotonicity only; altitudes below 44 km (positive base)"

    def cfg(self, o, a):
        return o.obj("cfg", station={"stationAlt": a.station})

    def requires(self, o, old, a):
        d = o.seq(a.data)
        top = lambda z: o.slt(z, o.num(44000))
        return [("sea level", a.sea == 0), ("altitudes", o.and_(top(a.station), top(a.lo), top(a.hi), o.slt(a.lo, a.hi))),
                ("pressure positive", o.forall(0, d.n, lambda i: o.pos(d.at(i))))]

    def drive(self, run, a):
        return [run(a.data, z) for z in (a.station, a.sea, a.lo, a.hi)]

    def ensures(self, o, old, new, a, res):
        d = o.seq(a.data)
        here, sea, lo, hi = [o.seq(x) for x in res]
        every = lambda f: o.forall(0, d.n, f)
        return [("same length", o.and_(*[o.ieq(x.n, d.n) for x in (here, sea, lo, hi)])),
                ("station altitude: the measured pressure", every(lambda i: o.eq(here.at(i), d.at(i)))),
                ("decreases with altitude", every(lambda i: o.and_(o.slt(o.num(0), hi.at(i)), hi.at(i) < lo.at(i)))),
                ("sea level pressure and back", every(lambda i: o.near(sea.at(i) * o.pow(1 - o.div(o.num(0.0065) * a.station, o.num(288.15)), 5.255), d.at(i))))]

    def gen(self, rng):
        lo = rng.uniform(-100, 8000)
        return {"args": {"data": vec(rng, lambda: rng.uniform(300, 1060)), "station": rng.choice([0.0, rng.uniform(-100, 8000)]), "sea": 0.0,
                         "lo": lo, "hi": lo + rng.choice([0.1, rng.uniform(1, 3000)])}}


class HumidityBounds(_Forcing):
    qual = "set_relative_humidity_bounds"
    args = (("rh", "vec"),)

    def ensures(self, o, old, new, a, res):
        x, y = o.seq(a.rh), o.seq(res)
        at = lambda f: o.forall(0, x.n, f)
        return [("same length", o.ieq(y.n, x.n)),
                ("between 0 and 100 %", at(lambda i: o.and_(o.le(o.num(0), y.at(i)), o.le(y.at(i), o.num(100))))),
                ("values inside are untouched", at(lambda i: o.implies(o.and_(o.sle(o.num(0), x.at(i)), o.sle(x.at(i), o.num(100))), o.eq(y.at(i), x.at(i))))),
                ("saturated above 100 %", at(lambda i: o.implies(o.sle(o.num(100), x.at(i)), o.eq(y.at(i), o.num(100))))),
                ("close to dry below 0 %", at(lambda i: o.implies(x.at(i) < 0, o.le(y.at(i), o.num(1)))))]

    def gen(self, rng):
        return {"args": {"rh": vec(rng, lambda: rng.choice([0.0, 100.0, -1e-9, 100.001, rng.uniform(-20, 130)]))}}


class TemperatureBounds(_Forcing):
    qual = "check_temperature_bounds"
    args = (("t", "vec"),)
    int_ghosts = ghosts = ("k",)
    raises = ("ValueError",)

    def ghost_values(self, o, old, a):
        bad = [i for i, x in enumerate(a.t) if not 173.16 <= x <= 373.16]
        return {"k": bad[0] if bad else 0}

    def requires(self, o, old, a):
        return [("k is an index", o.and_(a.k >= 0, a.k < o.seq(a.t).n))]

    def plausible(self, o, x):
        return o.and_(o.sle(o.num(173.16), x), o.sle(x, o.num(373.16)))

    def ensures(self, o, old, new, a, res):
        return [("accepted only when every temperature is plausible", self.plausible(o, o.seq(a.t).at(a.k)))]

    def on_raise(self, o, old, a, kind):
        t = o.seq(a.t)
        return kind == "ValueError" and o.not_all(0, t.n, lambda i: self.plausible(o, t.at(i)))

    def gen(self, rng):
        return {"args": {"t": vec(rng, lambda: rng.choice([173.16, 373.16, 173.159, 373.161] + 6 * [rng.uniform(174, 373)] + [rng.uniform(0, 500)]))}}


class WrfHumidity(_Forcing):
    module, qual = WRF, "wrf_rh"
    args = (("t", "vec"), ("q", "vec"), ("p", "vec"))
    vec_len = {"q": "t", "p": "t"}

    def requires(self, o, old, a):
        t, q, p = o.seq(a.t), o.seq(a.q), o.seq(a.p)
        return [("same length", o.and_(o.ieq(t.n, q.n), o.ieq(t.n, p.n))),
                ("temperature and pressure plausible", o.forall(0, t.n, lambda i: o.and_(o.sle(o.num(100), t.at(i)), o.pos(p.at(i)))))]

    def ensures(self, o, old, new, a, res):
        t, q, p, y = o.seq(a.t), o.seq(a.q), o.seq(a.p), o.seq(res)

        def raw(i):
            qs = o.div(o.num(379.90516), p.at(i)) * o.exp(o.div(o.num(17.2693882) * (t.at(i) - o.num(273.16)), t.at(i) - o.num(35.86)))
            return o.div(100 * q.at(i), qs)
        return [("same length", o.ieq(y.n, t.n)),
                ("between 0 and 100 %", o.forall(0, t.n, lambda i: o.and_(o.le(o.num(0), y.at(i)), o.le(y.at(i), o.num(100))))),
                ("mixing ratio over its saturation value, within the bounds", o.forall(0, t.n, lambda i: o.eq(y.at(i), o.max(o.num(0), o.min(o.num(100), raw(i))))))]

    def gen(self, rng):
        n = rng.randint(1, 6)
        g = lambda f: [f() for _ in range(n)]
        return {"args": {"t": g(lambda: rng.uniform(220, 310)), "q": g(lambda: rng.choice([0.0, -1e-6, rng.uniform(0, 0.02)])), "p": g(lambda: rng.uniform(3e4, 1.1e5))}}


class Coordinates(_Forcing):
    qual = "set_dataset_coordinates"
    args = (("lat", "vec"), ("lon", "vec"))

    def call_args(self, a):
        return [self._ds, a.lat, a.lon]

    def module_globals(self, o, a):
        self._ds = o.obj("dataset", coords={})
        return {}

    def ensures(self, o, old, new, a, res):
        lat, lon = o.seq(a.lat), o.seq(a.lon)
        c = o.get(res, "coords")
        out = [("only latitude and longitude are set", sorted(c) == ["lat", "lon"])]
        for nm, pick in (("lat", lambda i, j: lat.at(i)), ("lon", lambda i, j: lon.at(j))):
            dims, v = c[nm]
            v = o.grid2(v)
            out += [(f"{nm}: dimensions", tuple(dims) == ("south_north", "west_east")),
                    (f"{nm}: shape", o.and_(o.ieq(v.shape[0], lat.n), o.ieq(v.shape[1], lon.n))),
                    (f"{nm}: values", o.forall(0, lat.n, lambda i, v=v, pick=pick: o.eq(v.at(i, a.j), pick(i, a.j))))]
        return out

    ghosts = int_ghosts = ("j",)

    def ghost_values(self, o, old, a):
        return {"j": len(a.lon) - 1}

    def requires(self, o, old, a):
        return [("j is a column", o.and_(a.j >= 0, a.j < o.seq(a.lon).n))]

    def gen(self, rng):
        return {"args": {"lat": vec(rng, lambda: rng.uniform(-90, 90)), "lon": vec(rng, lambda: rng.uniform(-180, 180))}}


class _Prepared(Spec):
    """bounded: the whole preparation on small random data sets; only reading and writing files is replaced"""
    prop, module, bounded_only, has_grid = "C21", AWS, True, False
    search_seconds = 8
    note = "create_1D_input, create_2D_input (pandas/xarray): bounded, executed on random series of up to 8 steps and fields up to 4x4; not proved"
    wrf_choice = (False,)

    def gen(self, rng):
        nt = rng.randint(3, 6)
        col = lambda lo, hi: [rng.uniform(lo, hi) for _ in range(nt)]
        in_k = rng.random() < 0.5
        ny, nx = rng.randint(2, 4), rng.randint(2, 4)
        g = lambda f: [[f() for _ in range(nx)] for _ in range(ny)]
        alt = rng.uniform(0, 5000)
        opt = {k: col(lo, hi) for k, lo, hi in (("RRR", 0, 5), ("SNOWFALL", 0, 0.02), ("N", 0, 1)) if rng.random() < 0.7}
        if "N" not in opt or rng.random() < 0.5:
            opt["LWin"] = col(150, 350)
        rh = [rng.choice([rng.uniform(0, 100), 0.0, 100.0, rng.uniform(95, 100)]) for _ in range(nt)]
        return {"args": {
            "nt": nt, "in_K": in_k, "cols": {"T2": col(-20, 5) if not in_k else col(253, 278), "RH2": rh, "U2": col(0, 15), "G": col(0, 900),
                                             "PRES": col(500, 900), **opt},
            "alt": alt, "hgt": rng.choice([alt, alt + rng.uniform(-800, 800)]), "HGT": g(lambda: alt + rng.uniform(-600, 600)),
            "lapse": [rng.uniform(-0.009, 0), rng.uniform(-0.02, 0.02), rng.uniform(-0.002, 0.002), rng.uniform(-1e-5, 1e-5)],
            "MASK": g(lambda: rng.choice([1.0, 1.0, math.nan])), "ASPECT": g(lambda: rng.uniform(0, 360)), "SLOPE": g(lambda: rng.uniform(0, 45)),
            "radiation": rng.choice(["none", "Wohlfahrt2016"]), "wrf": rng.choice(self.wrf_choice),
            "lat0": rng.uniform(-60, 60), "lon0": rng.uniform(-170, 170), "desc": rng.random() < 0.5}}

    def check_concrete(self, get_env, inp):
        import contextlib
        import io
        import warnings
        from types import SimpleNamespace
        import numpy as np
        import pandas as pd
        import xarray as xr
        m = get_env({}, None).mod(self.module)
        a = inp["args"]
        names = {"T2_var": "T2", "RH2_var": "RH2", "U2_var": "U2", "G_var": "G", "PRES_var": "PRES", "RRR_var": "RRR", "LWin_var": "LWin", "N_var": "N",
                 "SNOWFALL_var": "SNOWFALL", "in_K": a["in_K"]}
        lapse = dict(zip(LAPSES, a["lapse"]))
        cfg = SimpleNamespace(names=names, coords={"WRF": a["wrf"], "aggregate": False, "aggregation_step": "h", "delimiter": ","}, lapse=lapse,
                              station={"stationAlt": a["alt"], "stationLat": a["lat0"]},
                              points={"plon": a["lon0"], "plat": a["lat0"], "hgt": a["hgt"]},
                              radiation={"radiationModule": a["radiation"], "timezone_lon": a["lon0"], "zeni_thld": 85.0})
        df = pd.DataFrame({k: list(v) for k, v in a["cols"].items()}, index=pd.date_range("2009-06-01 07:00", periods=a["nt"], freq="h", name="TIMESTAMP"))
        ny, nx = np.array(a["HGT"]).shape
        lat, lon = a["lat0"] + 0.01 * np.arange(ny), a["lon0"] + 0.01 * np.arange(nx)
        static = xr.Dataset({k: (("lat", "lon"), np.array(a[k], float)) for k in ("HGT", "MASK", "ASPECT", "SLOPE")},
                            coords={"lat": lat[::-1] if a["desc"] else lat, "lon": lon})
        got = {}
        keep = {k: getattr(m, k) for k in ("_cfg", "read_input_file", "write_netcdf", "xr")}
        fake = SimpleNamespace(**{k: getattr(xr, k) for k in ("Dataset", "DataArray")}, open_dataset=lambda p: static.copy(deep=True))
        m._cfg, m.read_input_file, m.xr = cfg, (lambda input_path: df.copy()), fake
        m.write_netcdf = lambda dataset, output_path: got.update(ds=dataset)
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                self.prepare(m, a)
        except Exception as e:  # noqa: BLE001
            return "fail", f"preparation of plausible data does not fail ({type(e).__name__})", repr(e)
        finally:
            for k, v in keep.items():
                setattr(m, k, v)
        return self.judge(a, got["ds"], static, df, lapse, np)

    def expected(self, a, df, lapse, z, np):
        """per time step, at altitude z (scalar or field)"""
        z = np.asarray(z, float)
        d = (z - a["alt"])[None]
        s = lambda k: np.array(df[k], float).reshape((-1,) + (1,) * z.ndim)
        baro = lambda h: (1 - 0.0065 * h / 288.15) ** 5.255
        out = {"T2": s("T2") + (0 if a["in_K"] else 273.16) + d * lapse["lapse_T"], "RH2": s("RH2") + d * lapse["lapse_RH"],
               "U2": s("U2") + 0 * d, "PRES": s("PRES") * baro(z)[None] / baro(a["alt"])}
        if "RRR" in df:
            out["RRR"] = np.maximum(0, s("RRR") + d * lapse["lapse_RRR"])
        if "SNOWFALL" in df:
            out["SNOWFALL"] = np.maximum(0, s("SNOWFALL") + d * lapse["lapse_SNOWFALL"])
        for k in ("LWin", "N"):
            if k in df:
                out[k] = s(k) + 0 * d
        return out

    def compare(self, ds, want, on, np):
        for k, v in want.items():
            g = np.asarray(ds[k].values, float).reshape(v.shape)
            if k == "RH2":
                if not (np.all(g >= 0) and np.all(g <= 100)):
                    return k + " between 0 and 100 %", g
                inside = (v >= 0) & (v <= 100)
                if not np.allclose(g[inside], v[inside], rtol=1e-9, atol=1e-9):
                    return k + " inside the bounds is untouched", (g, v)
            elif not np.allclose(g, v, rtol=1e-9, atol=1e-9):
                return k + " at the altitude of the cell", (g, v)
        extra = {"RRR", "SNOWFALL", "LWin", "N"} & set(ds.variables) - set(want)
        return ("only the measured variables are written", extra) if extra else None


class PreparedField(_Prepared):
    qual = "create_2D_input"
    wrf_choice = (False, True)

    def prepare(self, m, a):
        m.create_2D_input("in", "out", "static", None, None)

    def judge(self, a, ds, static, df, lapse, np):
        bad = self.compare(ds, self.expected(a, df, lapse, static.HGT.values, np), None, np)
        if bad:
            return "fail", bad[0], repr(bad[1])[:800]
        la, lo = static.lat.values, static.lon.values
        if a["wrf"]:
            lo, la = np.meshgrid(lo, la)
        if not (np.array_equal(ds.lat.values, la) and np.array_equal(ds.lon.values, lo)):
            return "fail", "latitudes and longitudes of the static file", repr((ds.lat.values, ds.lon.values))
        for k in ("HGT", "MASK", "SLOPE"):
            if not np.array_equal(ds[k].values, static[k].values, equal_nan=True):
                return "fail", f"{k} of the static file", repr(ds[k].values)
        if not np.allclose(ds.ASPECT.values, static.ASPECT.values - 180):
            return "fail", "aspect counted from south", repr(ds.ASPECT.values)
        on = static.MASK.values == 1
        g, sw = ds.G.values[:, on], np.array(df.G)[:, None]
        if not np.all(g >= 0):
            return "fail", "shortwave radiation not negative", repr(g)
        if a["radiation"] == "none" and not np.allclose(g, sw):
            return "fail", "shortwave radiation unchanged without a radiation module", repr(g)
        return "ok", None, None


class PreparedPoint(_Prepared):
    qual = "create_1D_input"

    def gen(self, rng):
        x = super().gen(rng)
        x["args"]["cols"].setdefault("RRR", [rng.uniform(0, 5) for _ in range(x["args"]["nt"])])
        return x

    def prepare(self, m, a):
        m.create_1D_input("in", "out", None, None, None)

    def judge(self, a, ds, static, df, lapse, np):
        bad = self.compare(ds, self.expected(a, df, lapse, a["hgt"], np), None, np)
        if bad:
            return "fail", bad[0], repr(bad[1])[:800]
        if not (np.allclose(ds.lat.values, a["lat0"]) and np.allclose(ds.lon.values, a["lon0"])):
            return "fail", "latitude and longitude of the point", repr((ds.lat.values, ds.lon.values))
        if not (np.allclose(ds.G.values.ravel(), df.G) and np.allclose(float(np.asarray(ds.HGT.values).ravel()[0]), a["hgt"])):
            return "fail", "radiation and altitude of the point", repr(ds)
        return "ok", None, None


class PreparedWrf(Spec):
    """bounded: WRF conversion of random fields (file access and the slope/aspect library replaced)"""
    prop, module, qual, bounded_only, has_grid = "C21", WRF, "create_input", True, False
    search_seconds = 6
    note = "wrf2cosipy.create_input (xarray): bounded, executed on random fields up to 4x4 and 5 steps; slope and aspect (xrspatial) replaced; not proved"

    def gen(self, rng):
        nt, ny, nx = rng.randint(2, 5), rng.randint(1, 4), rng.randint(1, 4)
        return {"args": {"nt": nt, "ny": ny, "nx": nx, "seed": rng.randint(0, 10**9)}}

    def check_concrete(self, get_env, inp):
        import contextlib
        import io
        import warnings
        from types import SimpleNamespace
        import numpy as np
        import pandas as pd
        import xarray as xr
        m = get_env({}, None).mod(self.module)
        a = inp["args"]
        g = np.random.default_rng(a["seed"])
        nt, ny, nx = a["nt"], a["ny"], a["nx"]
        d3, d = ("XTIME", "y", "x"), (nt, ny, nx)
        u = lambda lo, hi: (d3, g.uniform(lo, hi, d))
        acc = lambda hi: (d3, np.cumsum(g.uniform(0, hi, d), axis=0))
        src = xr.Dataset({"XLAT": u(-80, 80), "XLONG": u(-180, 180), "HGT": u(0, 5000), "T2": u(230, 300), "Q2": u(0, 0.02), "PSFC": u(4e4, 1.05e5),
                          "SWDOWN": u(0, 1200), "GLW": u(100, 400), "SNOWH": u(0, 2), "SNOW": u(0, 500), "SNOWC": u(0, 1), "TSK": u(240, 273),
                          "LU_INDEX": (d3, np.repeat(g.choice([24.0, 5.0], (1, ny, nx)), nt, 0)), "U10": u(-10, 10), "V10": u(-10, 10),
                          "RAINNC": acc(3), "RAINC": acc(2), "SNOWNC": acc(2)},
                         coords={"XTIME": pd.date_range("2010-01-01", periods=nt, freq="h")}, attrs={"DX": np.float32(1000), "DY": np.float32(1000)})
        orig = src.copy(deep=True)
        got = {}
        keep = {k: getattr(m, k) for k in ("_cfg", "xr", "xrs")}

        class DS(xr.Dataset):
            __slots__ = ()

            def __setitem__(self, k, v):
                # newer xarray versions refuse (dims, DataArray)
                super().__setitem__(k, (v[0], getattr(v[1], "values", v[1])) if isinstance(v, tuple) else v)

            def to_netcdf(self, *x, **k):
                got["ds"] = self
        m._cfg = SimpleNamespace(constants={"hu": 10, "lu_class": 24})
        m.xr = SimpleNamespace(Dataset=DS, DataArray=xr.DataArray, open_dataset=lambda p: src)
        m.xrs = SimpleNamespace(slope=lambda x: x.values * 0, aspect=lambda x: x.values * 0)
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m.create_input("in", "out", None, None)
        except Exception as e:  # noqa: BLE001
            if "ds" not in got:
                return "fail", f"conversion does not fail ({type(e).__name__})", repr(e)
        finally:
            for k, v in keep.items():
                setattr(m, k, v)
        ds = got["ds"]
        v = lambda k: np.asarray(ds[k].values, float)
        s = lambda k: orig[k].values
        same = lambda x, y: np.allclose(x, y, rtol=1e-9, atol=1e-12)
        diff = lambda x: np.concatenate([np.zeros((1, ny, nx)), x[1:] - x[:-1]])
        qs = 379.90516 / s("PSFC") * np.exp(17.2693882 * (s("T2") - 273.16) / (s("T2") - 35.86))
        checks = [("latitudes", same(v("lat"), s("XLAT")[0])), ("longitudes", same(v("lon"), s("XLONG")[0])), ("altitude", same(v("HGT"), s("HGT")[0])),
                  ("temperature", same(v("T2"), s("T2"))), ("radiation", same(v("G"), s("SWDOWN")) and same(v("LWin"), s("GLW"))),
                  ("pressure in hPa", same(v("PRES"), s("PSFC") / 100)),
                  ("relative humidity", same(v("RH2"), np.clip(100 * s("Q2") / qs, 0, 100))),
                  ("wind never negative and not above the 10 m wind", bool(np.all(v("U2") >= 0) and np.all(v("U2") <= np.hypot(s("U10"), s("V10")) + 1e-12))),
                  ("precipitation per step", same(v("RRR"), diff(s("RAINNC") + s("RAINC")))),
                  ("snowfall never negative", bool(np.all(v("SNOWFALL") >= 0))),
                  ("glacier mask from the land use class", same(v("MASK"), (s("LU_INDEX")[0] == 24).astype(float)))]
        for nm, ok in checks:
            if not ok:
                return "fail", nm, None
        return "ok", None, None
