"""C23: configuration (cosipy/config.py, constants.py, utilities/config_utils.py)"""
import copy
from .base import *

CFG = "cosipy.config"
CONST = "cosipy.constants"
UTIL = "cosipy.utilities.config_utils"


def toml_text(table):
    def val(v):
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, str):
            return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
        if isinstance(v, list):
            return "[" + ", ".join(val(x) for x in v) + "]"
        return repr(v)
    return "\n".join(f"[{t}]\n" + "\n".join(f"{k} = {val(v)}" for k, v in d.items()) for t, d in table.items()) + "\n"


class _Config(Spec):
    """every key of the shipped file (and of an additional table) with an arbitrary value"""
    prop = "C23"
    has_grid = False
    functionals = ()
    search_seconds = 3
    file = None
    cls = None
    drop = ()
    note = ("configuration: proved for the key names of the shipped files plus an additional table and arbitrary values of the shipped types; "
            "other key names and value types by bounded execution; tomllib and argparse are trusted")

    def shipped(self):
        with open(os.path.join(REPO, self.file), "rb") as f:
            t = tomllib.load(f)
        t["ADDED"] = {"added_flag": True, "added_text": "", "added_number": 0.5}
        return t

    def table(self, o):
        """arbitrary values under the shipped names"""
        def value(k, v):
            if isinstance(v, bool):
                return o.boolean(k)
            if isinstance(v, int):
                return o.integer(k)
            if isinstance(v, float):
                return o.real(k)
            return o.token(k)
        return {t: {k: value(k, v) for k, v in d.items()} for t, d in self.shipped().items()}

    def module_globals(self, o, a):
        if o.symbolic:
            self._table = self.table(o)
        return self.others(o, a)

    def others(self, o, a):
        return {}

    @property
    def class_home(self):
        return {self.cls: self.module}

    def stubs(self, o, ctx):
        return {"TomlLoader.get_raw_toml": lambda I, args, kw: {t: dict(d) for t, d in self._table.items()}}

    def sym_call_args(self, grid, a):
        self._cls = _OBJ(self.cls)
        return [self._cls, "path"]

    def expected(self, o, a):
        """{name: value or condition}"""
        return {k: v for d in self._table.values() for k, v in d.items()}

    def got(self, o, res):
        return self._cls.attrs if o.symbolic else self._got

    def ensures(self, o, old, new, a, res):
        want, got = self.expected(o, a), self.got(o, res)
        out = [("exactly the parameters of the file are set", sorted(want) == sorted(got))]
        for k, v in want.items():
            out.append((f"{k} has its own value", (v(got.get(k)) if callable(v) else o.same(v, got[k])) if k in got else False))
        return out

    # concrete: a file with random values, loaded by a fresh subclass
    def value(self, rng, v):
        if isinstance(v, bool):
            return rng.random() < 0.5
        if isinstance(v, int):
            return rng.choice([0, 1, 2, v, rng.randint(-5, 9999)])
        if isinstance(v, float):
            return rng.choice([0.0, v, rng.uniform(-10, 1000)])
        if isinstance(v, list):
            return [f"s{rng.randint(0, 99)}" for _ in range(rng.randint(0, 3))]
        return rng.choice(["", v, "x,y", f"v{rng.randint(0, 999)}"])

    def gen(self, rng):
        t = {n: {k: self.value(rng, v) for k, v in d.items()} for n, d in self.shipped().items()}
        if rng.random() < 0.5:
            t[f"T{rng.randint(0, 99)}"] = {f"k{rng.randint(0, 10**6)}": self.value(rng, rng.choice([True, 1, 1.5, "a", ["b"]])) for _ in range(rng.randint(0, 4))}
        return {"args": self.more(rng), "table": t}

    def more(self, rng):
        return {}

    def invoke(self, env, inp):
        import tempfile
        m = env.mod(self.module)
        self._table = copy.deepcopy(inp["table"])
        fresh = type(self.cls, (getattr(m, self.cls),), {})
        o = NumOps({})
        from concrete.run import A
        saved = {}
        for k, v in self.others(o, A(inp["args"])).items():
            saved[k] = getattr(m, k)
            setattr(m, k, v)
        exc = None
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "c.toml")
            with open(p, "w") as f:
                f.write(toml_text(inp["table"]))
            try:
                fresh.load(p)
            except Exception as e:  # noqa: BLE001
                exc, env.last_exc = type(e).__name__, repr(e)
            finally:
                for k, v in saved.items():
                    setattr(m, k, v)
        self._got = {k: v for k, v in vars(fresh).items() if not k.startswith("__")}
        return None, exc, None, None, None


def _OBJ(name):
    from pyvc.values import Obj
    return Obj(name, {}, tag=name)


class LoadConfig(_Config):
    module, qual, cls, file = CFG, "Config.load", "Config", "config.toml"

    def expected(self, o, a):
        want = super().expected(o, a)
        t = self._table
        wrf, cpl, w = t["DIMENSIONS"]["WRF"], t["DIMENSIONS"]["WRF_X_CSPY"], t["PARALLELIZATION"]["workers"]
        either = lambda c, forced, orig: lambda g: o.or_(o.and_(c, o.same(g, forced)), o.and_(o.not_(c), o.same(g, orig)))
        want["northing"] = either(wrf, "south_north", want["northing"])
        want["easting"] = either(wrf, "west_east", want["easting"])
        ff = want["full_field"]
        want["full_field"] = lambda g: o.or_(o.and_(cpl, o.same(g, True)), o.and_(o.not_(cpl), o.same(g, ff)))
        want["workers"] = either(w == 0, None, w)
        return want


class LoadConstants(_Config):
    module, qual, cls, file = CONST, "Constants.load", "Constants", "constants.toml"
    args = (("coupled", ("const", False)),)
    coupled = False

    def others(self, o, a):
        return {"Config": o.obj("Config0", WRF_X_CSPY=self.coupled)}

    def expected(self, o, a):
        want = super().expected(o, a)
        if self.coupled:
            want["albedo_method"] = "Oerlemans98"
            want["stability_correction"] = "MO"
        return want

    def more(self, rng):
        return {"coupled": self.coupled}


class LoadConstantsCoupled(LoadConstants):
    args = (("coupled", ("const", True)),)
    coupled = True


class LoadSlurm(_Config):
    module, qual, cls, file = CFG, "SlurmConfig.load", "SlurmConfig", "slurm_config.toml"

    def expected(self, o, a):
        want = super().expected(o, a)
        per, cores, mem = want["memory_per_process"], want["cores"], want["memory"]

        def memory(g):
            if o.symbolic:
                return o.or_(per != 0, o.same(g, mem))
            return g == (f"{per * cores}GB" if per else mem)
        want["memory"] = memory
        return want


class LoadUtilities(Spec):
    """bounded: utilities' configuration (namedtuples): random tables under the shipped names"""
    prop, module, qual, bounded_only, has_grid = "C23", UTIL, "UtilitiesConfig.load", True, False
    search_seconds = 2
    note = "UtilitiesConfig (namedtuple classes built at run time): bounded, random values; not proved"

    def gen(self, rng):
        with open(os.path.join(REPO, "utilities_config.toml"), "rb") as f:
            t = tomllib.load(f)
        v = _Config()
        return {"args": {}, "table": {n: {s: {k: v.value(rng, x) for k, x in d.items()} for s, d in u.items()} for n, u in t.items()}}

    def check_concrete(self, get_env, inp):
        import tempfile
        m = get_env({}, None).mod(UTIL)
        fresh = type("U", (m.UtilitiesConfig,), {})
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "u.toml")
            with open(p, "w") as f:
                f.write("".join(toml_text({f"{n}.{s}": x for s, x in u.items()}) for n, u in inp["table"].items()))
            fresh.load(p)
        for n, u in inp["table"].items():
            e = fresh.get_config_expansion(fresh, n)
            if {k: getattr(e, k) for k in e._fields} != u:
                return "fail", f"{n} has its own values", repr(e)
        return "ok", None, None
