"""What the output stage (COSIPY.run_cosipy, IOClass) sees of its surroundings, as contracts."""
import ast

import z3

from .values import *
from .interp import PyRaise
from specs import core_specs as cs
from specs import output_specs as os_

ALL = slice(None)


class Tok(Ext):
    """a value that is only passed on"""

    def __init__(self, name, **attrs):
        self.nm, self.attrs = name, attrs

    def get(self, I, name):
        if name == "data":
            return self
        if name in self.attrs:
            return self.attrs[name]
        return Ext.get(self, I, name)

    def truth(self, I):
        return True

    def __repr__(self):
        return f"<{self.nm}>"


class Quiet(Ext):
    """reporting: accepts everything, means nothing"""

    def get(self, I, name):
        return self

    def getitem(self, I, i):
        return self

    def setitem(self, I, i, v):
        pass

    def set(self, I, name, v):
        pass

    def op(self, I, op, a, b):
        return self

    def __call__(self, *a, **k):
        return self


class Name(Ext):
    """the name of an arbitrary output variable (with a prefix)"""

    def __init__(self, base, prefix=""):
        self.base, self.prefix = base, prefix

    def prefixed(self, p):
        return Name(self.base, p + self.prefix)

    def key(self):
        return (self.prefix, self.base)

    def __eq__(self, other):
        return isinstance(other, Name) and self.key() == other.key()

    def __hash__(self):
        return hash(self.key())


def nkey(n):
    return n.key() if isinstance(n, Name) else ("", n)


class Selection(Ext):
    """the selected output variables of one group: any list of names"""

    def __init__(self, model, group):
        self.m, self.group, self.elems = model, group, set()
        self.n = z3.Int("len_" + group)
        model.ctx.assume(self.n >= 0)

    def contains(self, I, x):
        if isinstance(x, Name) and not x.prefix and x.base in self.elems:
            return True
        p, b = nkey(x)
        return z3.Bool(f"selected_{self.group}_{p}{b}")

    def truth(self, I):
        return self.n > 0

    def items(self, I):
        def elem(k):
            nm = f"{self.group}_elem"
            self.elems.add(nm)
            self.m.begin(("sel", self.group, Name(nm)))
            return Name(nm)
        return 0, self.n, elem


class Cube(Ext):
    """one of the global arrays"""

    def __init__(self, model, name):
        self.m, self.name = model, name

    def get(self, I, name):
        if name == "data":
            return self
        return Ext.get(self, I, name)

    def setitem(self, I, i, v):
        self.m.log.append(("store", self.name, i, v))
        self.m.touch(I)


class Dataset(Ext):
    def __init__(self, model, which):
        self.m, self.which = model, which

    def setitem(self, I, i, v):
        self.m.log.append(("write", self.which, nkey(i), v))

    def getitem(self, I, i):
        return Quiet()

    def get(self, I, name):
        if name == "coords":
            return Quiet()
        return Ext.get(self, I, name)


class Numpy(Ext):
    def get(self, I, name):
        if name == "full":
            return lambda shape, fill: Tok("full", shape=shape, fill=fill)
        if name == "nan":
            return Tok("nan")
        return Ext.get(self, I, name)


class Io(Ext):
    """an IOClass: its attributes by name, its methods by their text, or by contract where given"""

    def __init__(self, model, stubs=(), **attrs):
        self.m, self.stubs, self.attrs = model, dict(stubs), attrs

    def get(self, I, name):
        k = nkey(name)
        if k[0] == "" and not isinstance(name, Name):
            if name in self.stubs:
                return self.stubs[name]
            if name in self.attrs:
                return self.attrs[name]
            if name in ("RESULT", "RESTART"):
                return Dataset(self.m, name)
            try:
                f = I.get_function("cosipy.cpkernel.io", "IOClass." + name)
            except Unsupported:
                f = None
            if f is not None:
                return lambda *a, **kw: I.call(f, [self] + list(a), kw)
        return Cube(self.m, k)

    def set(self, I, name, v):
        self.m.log.append(("set", nkey(name), v))

    def set_named(self, name, v):
        self.set(None, name, v)


class Log:
    """base: events of the current iteration (or call)"""

    def __init__(self, spec, o):
        self.spec, self.o, self.ctx = spec, o, o.ctx
        self.I = self.ctx.interp
        self.log, self.what = [], None
        self.ctx.iteration_end = self.iteration_end

    def begin(self, what):
        self.what = what
        self.log.clear()

    def touch(self, I):
        pass

    def iteration_end(self, L, k):
        for nm, g in self.iteration(self.what, list(self.log)):
            self.ctx.oblige(nm, g, kind="post")
        self.log.clear()

    def iteration(self, what, log):
        return []


def same(a, b):
    """the same value: identical objects, or equal numbers"""
    if a is b:
        return z3.BoolVal(True)
    if is_num(a) and is_num(b):
        return zv(a) == zv(b)
    return z3.BoolVal(False)


def full_slice(i):
    return isinstance(i, slice) and i.start is None and i.stop is None and i.step is None


def T(b):
    return z3.BoolVal(bool(b))


# ------------------------------------------------------------------ storing one variable
class StoreModel(Log):
    def __init__(self, spec, o, group):
        Log.__init__(self, spec, o)
        self.group = group
        self.io = Io(self, atm=Selection(self, "atm"), internal=Selection(self, "internal"), full=Selection(self, "full"))
        self.name, self.value = Name("any"), Tok("value")
        self.x, self.y = z3.Int("arg_x"), z3.Int("arg_y")

    def call_args(self):
        return [self.io, self.name, self.value, self.x, self.y]

    def post(self):
        sel = z3.Bool(f"selected_{self.group}_any")
        key = ("LAYER_" if self.group == "full" else "", "any")
        if not self.log:
            return [("a selected variable is stored", z3.Not(sel))]
        if len(self.log) != 1 or self.log[0][0] != "store":
            return [("one store", T(False))]
        _, nm, i, v = self.log[0]
        rank = 4 if self.group == "full" else 3
        ok = isinstance(i, tuple) and (len(i) == rank or (rank == 4 and len(i) == 3)) and full_slice(i[0]) and (len(i) < 4 or full_slice(i[3]))
        return [("only a selected variable is stored", sel), ("it is stored in its own array", T(nm == key)),
                ("the value is stored", T(v is self.value)),
                ("it is stored for all times at its own cell and nowhere else", z3.And(T(ok), same(i[1], self.y), same(i[2], self.x)) if ok else T(False))]


# ------------------------------------------------------------------ creating and writing arrays
class ArraysModel(Log):
    def __init__(self, spec, o, full_field):
        Log.__init__(self, spec, o)
        self.dims = tuple(z3.Int("arg_" + n) for n in ("nt", "ny", "nx"))
        self.layers = z3.Int("arg_max_layers")
        self.full_field = full_field
        stubs = {"set_variable_metadata": lambda *a, **k: None, "get_result_metadata": lambda: Quiet(), "get_restart_metadata": lambda: Quiet(),
                 "get_full_field_metadata": lambda: Quiet()}
        t, ny, nx = self.dims
        self.io = Io(self, stubs, atm=Selection(self, "atm"), internal=Selection(self, "internal"), full=Selection(self, "full"), time=t, ny=ny, nx=nx)

    def globals(self):
        o = self.o
        return {"np": Numpy(), "Config": o.obj("Config0", full_field=self.full_field, northing="north", easting="east"),
                "Constants": o.obj("Constants0", max_layers=self.layers)}

    def call_args(self):
        return [self.io]

    def shape_is(self, v, want):
        if not (isinstance(v, Tok) and v.nm == "full" and isinstance(v.attrs["shape"], tuple) and len(v.attrs["shape"]) == len(want)):
            return T(False)
        return z3.And(T(isinstance(v.attrs["fill"], Tok) and v.attrs["fill"].nm == "nan"), *[same(a, b) for a, b in zip(v.attrs["shape"], want)])


class CreateModel(ArraysModel):
    def iteration(self, what, log):
        kind, group, nm = what
        key = ("LAYER_" if group == "full" else "", nm.base)
        want = self.dims + ((self.layers,) if group == "full" else ())
        if len(log) != 1 or log[0][0] != "set":
            return [(f"every selected {group} variable gets an array", T(False))]
        return [(f"every selected {group} variable gets its own array", T(log[0][1] == key)),
                (f"the array of a {group} variable starts missing everywhere", self.shape_is(log[0][2], want))]

    def post(self):
        return [("nothing else is set", T(not self.log))]


class WriteModel(ArraysModel):
    def iteration(self, what, log):
        kind, group, nm = what
        key = ("LAYER_" if group == "full" else "", nm.base)
        dims = ("time", "north", "east") + (("layer",) if group == "full" else ())
        if len(log) != 1 or log[0][0] != "write" or not isinstance(log[0][3], tuple) or len(log[0][3]) != 2:
            return [(f"every selected {group} variable is written", T(False))]
        _, ds, name, (d, v) = log[0]
        return [(f"a {group} variable is written to the result under its own name", T(ds == "RESULT" and name == key)),
                (f"a {group} variable is written from its own array", T(isinstance(v, Cube) and v.name == key)),
                (f"a {group} variable is written along its dimensions", T(d == dims))]

    def post(self):
        return [("nothing else is written", T(not self.log))]


RES = [n for n in cs.RESTART_SCALARS] + [n for n in cs.RESTART_PROFILES]


class CreateRestart(ArraysModel):
    def post(self):
        out = []
        sets = {e[1][1]: e[2] for e in self.log if e[0] == "set"}
        for n in RES:
            want = self.dims[1:] + ((self.layers,) if n in cs.RESTART_PROFILES else ())
            v = sets.get("RES_" + n)
            out.append((f"the array of {n} starts missing everywhere", self.shape_is(v, want) if v is not None else T(False)))
        return out


class WriteRestart(ArraysModel):
    def post(self):
        out = []
        ws = [e for e in self.log if e[0] == "write"]
        for n in RES:
            mine = [e for e in ws if e[2] == ("", n)]
            dims = ("north", "east") + (("layer",) if n in cs.RESTART_PROFILES else ())
            ok = len(mine) == 1 and mine[0][1] == "RESTART" and isinstance(mine[0][3], tuple) and mine[0][3][0] == dims and \
                isinstance(mine[0][3][1], Cube) and mine[0][3][1].name == ("", "RES_" + n)
            out.append((f"{n} is written from its own array", T(ok)))
        out.append(("nothing else is written", T(len(ws) == len(RES) and len(self.log) == len(RES))))
        return out


# ------------------------------------------------------------------ the run
class Cells(Ext):
    """product(range(ny), range(nx)): every cell once"""

    def __init__(self, model):
        self.m = model

    def items(self, I):
        m = self.m
        m.ctx.assume(z3.And(m.ny >= 1, m.nx >= 1))

        def elem(k):
            y, x = m.ctx.int("y"), m.ctx.int("x")
            m.ctx.assume(z3.And(y >= 0, y < m.ny, x >= 0, x < m.nx))
            m.begin(("cell", y, x))
            return (y, x)
        return 0, m.ncells, elem


class CellOf(Ext):
    def __init__(self, what, y, x):
        self.what, self.y, self.x = what, y, x


class Grid2(Ext):
    """a dataset with one value per cell, selected by position"""

    def __init__(self, model, what, make):
        self.m, self.what, self.make = model, what, make

    def get(self, I, name):
        if self.what == "DATA" and name == "MASK":
            return self.m.mask
        if self.what == "DATA" and name == "sizes":
            return {self.m.dims[0]: self.m.ny, self.m.dims[1]: self.m.nx}
        if self.what == "RESTART" and name == "close":
            return lambda: None
        if name in ("sel", "isel"):
            if name == "sel" and not self.m.case["WRF"]:
                raise Unsupported("selection by coordinate label")

            def pick(*a, **k):
                if a and isinstance(a[0], dict):
                    k = a[0]
                d = self.m.dims
                if set(k) != set(d):
                    raise Unsupported(f"selection along {sorted(k)}")
                return self.make(k[d[0]], k[d[1]])
            return pick
        return Ext.get(self, I, name)


class Futures(Ext):
    def __init__(self, model):
        self.m = model

    def get(self, I, name):
        if name == "append":
            return lambda j: self.m.log.append(("append", j))
        return Ext.get(self, I, name)


class Completed(Ext):
    """as_completed: every submitted job once, in any order"""

    def __init__(self, model):
        self.m = model

    def items(self, I):
        m = self.m
        m.ctx.oblige("the global arrays exist before results are stored", T("create" in m.done and "create_restart" in m.done), kind="post")
        m.ctx.oblige("all cells are submitted before results are awaited", T(m.submitted), kind="post")

        def elem(k):
            y, x = m.ctx.int("jobY"), m.ctx.int("jobX")
            res = []
            for nm in cs.RESULT:
                if nm in ("indY", "indX"):
                    res.append(y if nm == "indY" else x)
                elif nm == "RESTART":
                    res.append(RestartTok(m))
                else:
                    res.append(Tok(nm))
            m.begin(("job", y, x, res))
            return Tok("future", result=lambda *a, **k: tuple(res))
        return 0, m.ncells, elem


class RestartTok(Ext):
    def __init__(self, m):
        self.m, self.parts = m, {}

    def get(self, I, name):
        if name not in RES:
            raise PyRaise("AttributeError", name)
        return self.parts.setdefault(name, Tok("restart " + name))

    def getitem(self, I, i):
        return self.get(I, i)


class RunModel(Log):
    def __init__(self, spec, o, case):
        Log.__init__(self, spec, o)
        self.case = case
        self.dims = ("south_north", "west_east") if case["WRF"] else ("lat", "lon")
        self.ny, self.nx, self.ncells = z3.Int("arg_ny"), z3.Int("arg_nx"), z3.Int("arg_ncells")
        self.ctx.assume(self.ncells >= 1)
        fm = z3.Function("mask", z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.maskf = fm
        self.mask = Grid2(self, "MASK", lambda y, x: fm(zv(y), zv(x)))
        self.data = Grid2(self, "DATA", lambda y, x: CellOf("data", y, x))
        self.restart = Grid2(self, "RESTART", lambda y, x: CellOf("restart", y, x))
        self.core = Tok("cosipy_core")
        self.done, self.submitted = set(), False
        self.futures = Futures(self)

        def ev(nm):
            def call(*a, **k):
                self.done.add(nm)
                self.log.append(("event", nm))
                if nm.startswith("write"):
                    self.state_set(nm, False)
                return None
            return call

        def put(group):
            def call(name, value, x, y):
                self.log.append(("put", group, name, value, x, y))
                self.touch(None)
            return call
        self.flags = Obj("Flags", {"write": z3.BoolVal(False), "write_restart": z3.BoolVal(False)}, tag="written?")
        self.ctx.heap["written?"] = self.flags
        self.io = Io(self, {"create_global_result_arrays": ev("create"), "create_global_restart_arrays": ev("create_restart"),
                            "write_results_to_file": ev("write"), "write_restart_to_file": ev("write_restart"),
                            "set_atm_attribute": put("atm"), "set_internal_attribute": put("internal"), "set_full_field_attribute": put("full"),
                            "create_grid_restart": lambda: self.restart, "get_grid_restart": lambda: self.restart})

    def touch(self, I):
        for nm in ("write", "write_restart"):
            self.state_set(nm, True)

    def state_set(self, nm, b):
        pass

    def globals(self):
        o, c = self.o, self.case

        class Conf(Ext):
            vals = {"northing": self.dims[0], "easting": self.dims[1], "slurm_use": False, "stake_evaluation": False, "WRF": c["WRF"],
                    "restart": c["restart"], "full_field": c["full_field"]}

            def get(s, I, name):
                if name in s.vals:
                    return s.vals[name]
                return Ext.get(s, I, name)

            def __call__(s):
                return None
        conf = Conf()
        client = Ext()
        client.get = lambda I, name: (self.submit if name == "submit" else (lambda *a: client) if name in ("__enter__", "__exit__") else Ext.get(client, I, name))
        q = Quiet()
        g = {"Config": conf, "Constants": q, "Client": lambda *a, **k: client, "as_completed": lambda fs, **k: self.completed(fs), "progress": q,
             "cosipy_core": self.core, "check_for_nan": q, "print_notice": q, "get_time_required": q, "datetime": q,
             "product": self.product}
        g[("cosipy.cpkernel.io", "Config")] = conf
        return g

    def product(self, a, b):
        ok = isinstance(a, Range) and isinstance(b, Range)
        self.ctx.oblige("all cells of the domain are visited", z3.And(zv(a.lo) == 0, zv(a.hi) == self.ny, zv(b.lo) == 0, zv(b.hi) == self.nx,
                                                                    zv(a.step) == 1, zv(b.step) == 1) if ok else T(False), kind="post")
        return Cells(self)

    def completed(self, fs):
        self.submitted = True
        self.ctx.oblige("the submitted jobs are awaited", T(fs is self.futures), kind="post")
        return Completed(self)

    def submit(self, f, *a, **k):
        j = Tok("job")
        j.call = (f, a, k)
        self.log.append(("submit", j))
        return j

    def call_args(self):
        return [Tok("cluster"), self.io, self.data, Dataset(self, "RESULT"), Dataset(self, "RESTART"), self.futures]

    def iteration(self, what, log):
        return self.cell(what, log) if what[0] == "cell" else self.job(what, log)

    def cell(self, what, log):
        _, y, x = what
        glacier = self.maskf(y, x) == 1
        subs = [e[1] for e in log if e[0] == "submit"]
        apps = [e[1] for e in log if e[0] == "append"]
        if any(e[0] not in ("submit", "append") for e in log) or [id(j) for j in subs] != [id(j) for j in apps] or len(subs) > 1:
            return [("a cell is submitted at most once and awaited", T(False))]
        if not subs:
            return [("every glacier cell is submitted", z3.Not(glacier))]
        f, a, k = subs[0].call
        names = ("DATA", "indY", "indX", "GRID_RESTART", "stake_names", "stake_data")
        b = dict(zip(names, a))
        b.update(k)
        cell = lambda v, w: z3.And(zv(v.y) == y, zv(v.x) == x) if isinstance(v, CellOf) and v.what == w else T(False)
        out = [("only glacier cells are submitted", glacier), ("the job is the model", T(f is self.core)),
               ("the job gets its own forcing", cell(b.get("DATA"), "data")),
               ("the job gets its own indices", z3.And(same(b.get("indY"), y), same(b.get("indX"), x)))]
        if self.case["restart"]:
            out.append(("the job gets its own restart state", cell(b.get("GRID_RESTART"), "restart")))
        else:
            out.append(("no restart state is given", T(b.get("GRID_RESTART") is None)))
        return out

    def job(self, what, log):
        _, y, x, res = what
        tok = dict(zip(cs.RESULT, res))
        out = []
        puts = [e for e in log if e[0] == "put"]
        want = {("atm", n): n for n in os_.ATM}
        want.update({("internal", n): os_.POSITION.get(n, n) for n in os_.INTERNAL})
        if self.case["full_field"]:
            want.update({("full", n): "LAYER_" + n for n in os_.FULL})
        for (g, n), src in want.items():
            mine = [e for e in puts if e[1] == g and e[2] == n]
            ok = len(mine) == 1 and mine[0][3] is tok[src]
            out.append((f"{'LAYER_' if g == 'full' else ''}{n} gets its own series", z3.And(same(mine[0][5], y), same(mine[0][4], x)) if ok else T(False)))
        out.append(("no other series is stored", T(len(puts) == len(want))))
        stores = [e for e in log if e[0] == "store"]
        for n in RES:
            mine = [e for e in stores if e[1] == ("", "RES_" + n)]
            ok = len(mine) == 1 and mine[0][3] is tok["RESTART"].parts.get(n) and mine[0][3] is not None
            i = mine[0][2] if ok else None
            prof = n in cs.RESTART_PROFILES
            ok = ok and isinstance(i, tuple) and len(i) in ((2, 3) if prof else (2,)) and (len(i) == 2 or full_slice(i[2]))
            out.append((f"the restart state's {n} is stored at its own cell", z3.And(same(i[0], y), same(i[1], x)) if ok else T(False)))
        out.append(("no other restart value is stored", T(len(stores) == len(RES))))
        evs = [e[1] for e in log if e[0] == "event"]
        out.append(("the global arrays are not created again", T("create" not in evs and "create_restart" not in evs)))
        last = max([i for i, e in enumerate(log) if e[0] in ("put", "store")], default=-1)
        inloop = {e[1] for e in log[last + 1:] if e[0] == "event"}
        self.inloop = {n: n in inloop for n in ("write", "write_restart")}
        for n in ("write", "write_restart"):
            if n not in self.after_loop():
                out.append((f"{n}: stored values reach the dataset", T(n in inloop)))
        return out

    def after_loop(self):
        """writes that follow the loop over completed jobs in the text"""
        fv = self.I.get_function(self.spec.module, self.spec.qual)
        loops = [n for n in ast.walk(fv.node) if isinstance(n, ast.For) and any(isinstance(c, ast.Name) and c.id == "as_completed" for c in ast.walk(n.iter))]
        end = max((n.end_lineno for n in loops), default=10**9)
        names = {"write_results_to_file": "write", "write_restart_to_file": "write_restart"}
        return {names[n.func.attr] for n in ast.walk(fv.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                and n.func.attr in names and n.lineno > end}

    def post(self):
        out = []
        evs = {e[1] for e in self.log if e[0] == "event"}
        for n in self.after_loop():
            out.append((f"{n}: stored values reach the dataset", T(n in evs)))
        S = z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.RealSort()))
        A = z3.Const("A", S)
        y1, x1, y2, x2 = z3.Ints("y1 x1 y2 x2")
        v1, v2 = z3.Reals("v1 v2")
        put = lambda a, y, x, v: z3.Store(a, y, z3.Store(z3.Select(a, y), x, v))
        yy, xx = z3.Ints("yy xx")
        get = lambda a: z3.Select(z3.Select(a, yy), xx)
        out.append(("stores at different cells commute", z3.Implies(z3.Or(y1 != y2, x1 != x2),
                    get(put(put(A, y1, x1, v1), y2, x2, v2)) == get(put(put(A, y2, x2, v2), y1, x1, v1)))))
        return out
