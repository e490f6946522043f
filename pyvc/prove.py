"""Run a contract through the verification-condition generator."""
import os
import time
import traceback
from fractions import Fraction

import z3

from . import ctx as ctxmod
from .ctx import Ctx, decide, _run_z3, SK
from .interp import Interp
from .loops import havoc_list, sum_lemmas, fresh_like
from .values import *
from specs.base import Col, FIELDS, density


class SymOps:
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx

    def const(self, name):
        v = self.ctx.constant(name)
        return zr(v) if is_num(v) else v

    def num(self, x):
        if isinstance(x, (int, float, Fraction)):
            return zr(lit(x))
        return zr(x)

    def _c(self, a):
        return zr(lit(a) if isinstance(a, float) else a)

    def pure(self, spec, c):
        """the value a pure contract gives for the current column"""
        return apply_contract(spec, self)(self.ctx.interp, [self.ctx.heap["GRID"]], {})

    def eq(self, a, b):
        if isinstance(a, Special) or isinstance(b, Special) or a is None or b is None:
            return z3.BoolVal(a is b)
        return self._c(a) == self._c(b)

    def le(self, a, b): return self._c(a) <= self._c(b)
    def ge(self, a, b): return self._c(a) >= self._c(b)
    def lt(self, a, b): return self._c(a) < self._c(b)
    def gt(self, a, b): return self._c(a) > self._c(b)
    slt, sle = lt, le
    def pos(self, a): return self._c(a) > 0
    def ieq(self, a, b): return zv(a) == zv(b)
    def iff(self, a, b): return zb(a) == zb(b)

    def _flat(self, xs):
        for x in xs:
            if isinstance(x, Forall):
                raise Unsupported("quantifier below a connective")
        return [zb(x) for x in xs]

    def and_(self, *xs): return z3.And(*self._flat(xs))
    def or_(self, *xs): return z3.Or(*self._flat(xs))
    def not_(self, x): return z3.Not(zb(x))

    def implies(self, a, b):
        if isinstance(b, Forall):
            g = zb(a) if b.guard is None else z3.And(zb(a), zb(b.guard))
            return Forall(b.lo, b.hi, b.body, g)
        return z3.Implies(zb(a), zb(b))

    def forall(self, lo, hi, body): return Forall(lo, hi, body)

    def opaque(self, name, args, definition):
        args = [zr(x) for x in args]
        t = z3.Function("op_" + name, *([z3.RealSort()] * (len(args) + 1)))(*args)
        if name in self.ctx.reveal:
            self.ctx.assume(t == definition())
        return t

    def named(self, name, i, definition):
        """a named function of the layer index over the pre-state; its definition is only
        spelled out next to the indices of the loops under way and in lemmas"""
        i = z3.simplify(zv(i))
        t = z3.Function("nm_" + name, z3.IntSort(), z3.RealSort())(i)
        c = self.ctx
        c.saw_named = True
        bases = [SK, z3.IntVal(0)] if c.named_all else c.named_at
        if c.named_depth or any(i.get_id() == b.get_id() for b in bases):
            if not c.named_all and t.get_id() not in c.named_done:
                c.named_done.add(t.get_id())
                c.named_pending.append((t, lambda: self._spell(definition, i)))      # for good, at the next query
            c.assume(t == self._spell(definition, i))
        return t

    def _spell(self, definition, i):
        # one level down as well: what the definition of an index in play refers to
        if self.ctx.named_depth > 8:
            raise Unsupported("deep named definitions")
        self.ctx.named_depth += 1
        try:
            return definition(i)
        finally:
            self.ctx.named_depth -= 1

    def seq(self, x):
        if isinstance(x, (list, tuple)):
            return self.ctx.interp.lib.to_arr(x) if x else Arr(0, lambda i: z3.RealVal(0))
        if not isinstance(x, Arr):
            raise Unsupported(f"not a sequence: {x!r}")
        return x

    def obj(self, name, **attrs):
        """an object with these attributes (a configuration, a dataset)"""
        return Obj(name, attrs, tag=name)

    def get(self, obj, name): return obj.attrs[name]
    def grid2(self, x): return x
    def boolean(self, name): return z3.Bool("val_" + name)
    def integer(self, name): return z3.Int("val_" + name)
    def real(self, name): return z3.Real("val_" + name)
    def token(self, name): return Opaque("val_" + name)

    def same(self, a, b):
        """the same value, of the same type"""
        if is_sym(a) and is_sym(b) and a.sort() == b.sort():
            return a == b
        return z3.BoolVal(a is b or (not is_sym(a) and not is_sym(b) and type(a) == type(b) and not isinstance(a, Opaque) and a == b))

    def field(self, obj, name): return zr(obj.attrs[name])

    def ssum(self, x): return zr(self.ctx.interp.lib.sum_arr(x))

    def prefix(self, c, f, k):
        """sum of f(i) for i < k  (f: index -> value)"""
        P = self.ctx.interp.lib.prefix(lambda i: zr(f(i)), c.n)
        return P(k)

    def is_bool(self, x): return z3.BoolVal(is_boolish(x))

    def not_all(self, lo, hi, body):
        """some index in play fails (witnessed by an index term the code or the contract mentions)"""
        ts = list(self.ctx.index_terms.values())
        return z3.Or(*[z3.And(t >= lo, t < zv(hi), z3.Not(zb(body(t)))) for t in ts]) if ts else z3.BoolVal(False)

    def any_of(self, *alts): return AnyOf(alts)

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if is_boolish(a):
            return z3.If(c, zb(a), zb(b))
        if is_int(a) and is_int(b):
            return z3.If(c, zv(a), zv(b))
        return z3.If(c, zr(self._c(a)), zr(self._c(b)))

    def max(self, a, b): return self.ctx.minmax("max", self._c(a), self._c(b))
    def min(self, a, b): return self.ctx.minmax("min", self._c(a), self._c(b))
    def abs(self, a):
        a = self._c(a)
        return self.ctx.minmax("max", a, -a)

    def div(self, a, b):
        # specification-level division (total): the divisor is non-zero by the contract's own guard
        a, b = self._c(a), self._c(b)
        bs = z3.simplify(b)
        pb = ctxmod._pure_num(bs)
        if pb is not None and pb != 0:
            return z3.simplify(a * zr(Fraction(1) / pb))
        old = self.ctx.oblige
        self.ctx.oblige = lambda *x, **k: None
        try:
            return self.ctx.divide(a, b)
        finally:
            del self.ctx.oblige

    def exp(self, x): return self.ctx.fn("exp", x)
    def sqrt(self, x): return self.ctx.fn("sqrt", x)
    def pow(self, x, k): return self.ctx.interp.lib.power(self._c(x), lit(k))
    def cos(self, x): return self.ctx.fn("cos", self._c(x))
    def sin(self, x): return self.ctx.fn("sin", self._c(x))
    def asin(self, x): return self.ctx.fn("asin", self._c(x))
    def near(self, a, b): return self.eq(a, b)
    def log(self, x): return self.ctx.fn("log", x)
    def radians(self, x): return self._c(x) * self.ctx.pi() / 180
    def finite(self, *xs): return z3.BoolVal(True)


class AnyOf:
    """disjunction of conjunctions that may contain quantifiers"""

    def __init__(self, alts):
        self.alts = alts


class Functional:
    def __init__(self, fn, deps, nonneg=True, prefix=False):
        self.fn, self.deps, self.nonneg, self.prefix = fn, set(deps), nonneg, prefix


_OPS = [None]
FUNCTIONALS = {
    "H": Functional(lambda r: r["height"], ["height"], True, True),
    "ICE": Functional(lambda r: r["height"] * r["ice_fraction"], ["height", "ice_fraction"]),
    "WAT": Functional(lambda r: r["height"] * r["liquid_water_content"], ["height", "liquid_water_content"]),
    "HEAT": Functional(lambda r: r["height"] * r["temperature"], ["height", "temperature"]),
    "REF": Functional(lambda r: r["refreeze"], ["refreeze"]),
    "MASS": Functional(lambda r: r["height"] * density(_OPS[0], r["ice_fraction"], r["liquid_water_content"]),
                       ["height", "ice_fraction", "liquid_water_content"]),
}


def sym_grid(ctx, name="GRID"):
    n = ctx.int("n")
    ctx.note_index(0)
    fs = {k: ctx.func(k) for k in FIELDS}
    tot = {k: ctx.real("tot" + k) for k in ctx.functionals}
    lst = NodeList(ctx, n, fs, tot, tag="grid")
    ctx.register(lst)
    g = Obj("Grid", {"grid": lst, "number_nodes": n, "new_snow_height": ctx.real("nsh"),
                     "new_snow_timestamp": ctx.real("nst"), "old_snow_timestamp": ctx.real("ost"),
                     "layer_heights": Opaque("layer_heights"), "layer_densities": Opaque("layer_densities"),
                     "layer_temperatures": Opaque("layer_temperatures"),
                     "layer_liquid_water_content": Opaque("lwc"), "layer_ice_fraction": None}, tag="GRID")
    ctx.register(g)
    return g


def view(grid, lst=None):
    """current abstract view (frozen)"""
    l = grid.attrs["grid"]
    s = l.snap()
    return Col(s.n, lambda k, i: s.get(k, i), s.tot, grid.attrs["number_nodes"], grid.attrs["new_snow_height"],
               grid.attrs["new_snow_timestamp"], grid.attrs["old_snow_timestamp"])


def view_from(snap, attrs):
    return Col(snap.n, lambda k, i: snap.get(k, i), snap.tot, attrs["number_nodes"], attrs["new_snow_height"],
               attrs["new_snow_timestamp"], attrs["old_snow_timestamp"])


class Args:
    def __init__(self, d):
        self.__dict__.update(d)

    def __getitem__(self, k):
        return self.__dict__[k]


class LoopView:
    """what Spec.invgen sees"""

    def __init__(self, L, ctx, grid):
        self.L, self.ctx, self.grid = L, ctx, grid

    @property
    def func(self): return self.L.func
    @property
    def counted(self): return bool(self.L.counted)
    @property
    def k(self):
        k, ctx = self.L.k, self.ctx
        if self.L.counted and is_sym(k) and k.num_args() == 0 and all(k.get_id() != b.get_id() for b in ctx.named_at):
            ctx.named_at.append(k)
        return k

    @property
    def lo(self): return self.L.lo
    @property
    def hi(self): return self.L.hi

    def col(self):
        if not self.ctx.live:
            raise AssertionError("loop state read from a quantifier body")
        return view(self.grid)

    def entry(self):
        return view_from(self.L.entry_snap[self.grid.attrs["grid"].tag], self.L.entry_snap[self.grid.tag])

    @property
    def old(self): return self.ctx.spec_old
    @property
    def args(self): return self.ctx.spec_args

    def now(self, nm):
        if not self.ctx.live:
            raise AssertionError("loop state read from a quantifier body")
        return self.L.env[nm]

    def reals(self):
        """modified numeric locals: [(name, current-value thunk, entry value)]"""
        out = []
        for nm in self.L.modified:
            v0 = self.L.entry_env.get(nm)
            if is_num(v0):
                out.append((nm, (lambda nm=nm: self.now(nm)), v0))
        return out

    def arrays(self):
        """arrays the loop writes: [(name, current-value thunk)]"""
        out = []
        written = {t for t, _ in self.L.info.footprint}
        for nm, v in self.L.entry_env.items():
            if isinstance(v, Arr) and (v.tag in written or nm in self.L.modified):
                out.append((nm, (lambda nm=nm: self.now(nm).snap())))
        return out


def apply_contract(spec, ops):
    def call(I, args, kwargs):
        ctx = I.ctx
        if ctx._merge_depth:
            raise Unsupported("contract call in a merged expression")
        fv = I.get_function(spec.module, spec.qual)
        env = I.bind(fv, args, kwargs)
        names = [p.arg for p in fv.node.args.args]
        a = Args({nm: env[p] for (nm, _), p in zip(spec.args, names[1:])})
        for gname in spec.ghosts:
            setattr(a, gname, getattr(ctx.spec_args, gname, None))
        for gname, v in ctx.call_ghosts(ops, spec, a).items():
            setattr(a, gname, v)
        grid = env[names[0]]
        if not isinstance(grid, Obj) or not isinstance(grid.attrs.get("grid"), NodeList):
            raise Unsupported(f"contract call {spec.qual} on {grid!r}")
        old = view(grid)
        lst = grid.attrs["grid"]
        for x in a.__dict__.values():
            if is_num(x) and is_int(x):
                ctx.note_index(x)
        for nm, g in spec.requires(ops, old, a):
            ctx.oblige(f"precondition of {spec.qual}: {nm}", g, kind="pre")
        if getattr(spec, "pure", False):
            # a function of the column: the same column gives the same result
            memo = ctx.pure_memo
            key = (lst.n,) + tuple(lst.f[k] for k in FIELDS)
            for sp, k0, r0 in memo:
                if sp is spec and all(x is y or (is_sym(x) and is_sym(y) and z3.eq(x, y)) for x, y in zip(k0, key)):
                    return r0
        struct = "#struct" in spec.modifies
        for f in spec.modifies:
            I.note_write(lst, f)
        havoc_list(ctx, lst, FIELDS if struct else [f for f in spec.modifies], struct)
        for at in tuple(spec.modifies_attrs) + (("number_nodes",) if struct else ()):
            I.note_write(grid, at)
            grid.attrs[at] = ctx.int(at) if at == "number_nodes" else ctx.real(at)
        res = None
        if spec.result == "real":
            res = ctx.real("res")
        elif spec.result == "int":
            res = ctx.int("res")
        elif spec.result == "arr":      # one value per layer (the contract ensures the length)
            res = ctx.register(Arr(old.n, ctx.func("res"), tag=ctx.alloc_tag("res"), islist=True))
        new = view(grid)
        for nm, g in spec.ensures(ops, old, new, a, res):
            ctx.assume(g)
        if getattr(spec, "pure", False):
            memo.append((spec, key, res))
        sum_lemmas(ctx, lst)
        ctx.functions_used.add(f"{spec.module}:{spec.qual} (by contract)")
        return res

    return call


def prove(spec, case, timeout_ms=None, debug=None):
    """-> dict with obligations, statuses, failures"""
    t0 = time.time()
    ctxmod.STATS.update({"queries": 0, "cached": 0, "solver_s": 0.0, "by": {}})
    ctx = Ctx(f"{spec.qual}", timeout_ms or spec.timeout_ms)
    ctx.debug_inv = debug
    ctx.functionals = {k: FUNCTIONALS[k] for k in spec.functionals}
    ctx.deadline = t0 + spec.budget
    I = Interp(ctx)
    ops = SymOps(ctx)
    _OPS[0] = ops
    ctx.const_values = {k: lit(v) for k, v in case.items()}
    ctx.contracts = {s.qual: apply_contract(s, ops) for s in spec.uses}
    ctx.contracts.update(spec.stubs(ops, ctx))
    ctx.partial = spec.partial
    ctx.auto_invariants, ctx.merge_ifs = spec.auto_invariants, spec.merge_ifs
    ctx.class_home = spec.class_home
    ctx.call_ghosts = lambda o, callee, ca: spec.call_ghosts(o, callee, ctx.spec_args, ca)
    ctx.target = spec.qual
    ctx.reveal = set(spec.reveal)
    vac = {}
    out = {"spec": type(spec).__name__, "function": f"{spec.module}:{spec.qual}", "case": {k: str(v) for k, v in case.items()}}

    def run():
        for c in spec.sym_consts:
            ctx.const_values[c] = z3.Real("const_" + c)
        for nm, g in spec.const_requires(ops):
            ctx.assume(g)
        spec_run(spec, ctx, I, ops, vac)

    try:
        ctx.explore(run)
        err = None
    except Unsupported as e:
        err = f"unsupported: {e}"
    except (PyRaise, Abandon, RecursionError, z3.Z3Exception, AttributeError, TypeError, KeyError, ValueError, IndexError) as e:
        err = f"{type(e).__name__}: {e} @ {traceback.format_exc().splitlines()[-3:]}"
    agg = {}
    for nm, kind, st, by, detail in ctx.results:
        a = agg.setdefault((kind, nm), {"name": nm, "kind": kind, "status": "proved", "by": set(), "count": 0})
        a["count"] += 1
        a["by"].add(by)
        rank = {"proved": 0, "unknown": 1, "sat": 2}
        if rank[st] > rank[a["status"]]:
            a["status"] = st
            a["detail"] = detail
    obs = []
    for a in agg.values():
        a["by"] = sorted(a["by"])
        obs.append(a)
    if err is None and ctx.exits == 0:
        err = "no path reaches an exit of the function (vacuous)"
    if err is None and not vac.get("ok"):
        err = "precondition not shown satisfiable (vacuous)"
    out.update(obligations=obs, error=err, paths=ctx.paths, exits=ctx.exits,
               functions=sorted(ctx.functions_used), solver_s=round(ctxmod.STATS["solver_s"], 2),
               queries=ctxmod.STATS["queries"], by=dict(ctxmod.STATS["by"]), wall_s=round(time.time() - t0, 2),
               loops={i.label: len(i.removed) for i in ctx.loops.values() if hasattr(i, "label")})
    models = []
    for nm, kind, r, _, _ in ctx.failures:
        if r.status == "sat" and r.model is not None and kind in ("post", "safe", "pre"):
            try:
                m = extract(spec, r.model, ctx)
            except Exception:
                m = None
            if m is not None:
                m["obligation"] = nm
                models.append(m)
        if len(models) >= 6:
            break
    out["models"] = models
    return out


class Driver:
    """lets a relational contract run the function more than once"""

    def __init__(self, I, fv, grid):
        self.I, self.fv, self.grid = I, fv, grid

    def __call__(self, *args, **kw):
        g = [self.grid] if self.grid is not None else []
        return self.I.call_inline(self.fv, g + list(args), kw)

    def attr(self, name, value):
        self.grid.attrs[name] = value

    def field(self, i, name, value):
        lst = self.grid.attrs["grid"]
        self.I.setattr(NodeRef(lst, i), name, value)


def spec_run(spec, ctx, I, ops, vac):
    fv = I.get_function(spec.module, spec.qual)
    if not isinstance(fv, (Func, Cls)):
        raise Unsupported(f"{spec.qual} is not a function")
    a = {}
    vecs = {}
    grid = old = None
    if spec.has_grid:
        grid = sym_grid(ctx)
        old = view(grid)
    for nm, kind in spec.args:
        if kind == "int":
            a[nm] = z3.Int("arg_" + nm)
            ctx.note_index(a[nm])
        elif kind in ("real", "np"):     # np: a NumPy float in the concrete runs
            a[nm] = z3.Real("arg_" + nm)
        elif kind == "none":
            a[nm] = None
        elif isinstance(kind, tuple) and kind[0] == "const":
            a[nm] = lit(kind[1])
        elif kind == "arr2":
            a[nm] = I.lib.to_arr([z3.Real(f"arg_{nm}0"), z3.Real(f"arg_{nm}1")])
        elif kind == "arr":      # one value per layer
            fn = z3.Function("arg_" + nm, z3.IntSort(), z3.RealSort())
            a[nm] = ctx.register(Arr(grid.attrs["grid"].n, lambda i, fn=fn: fn(zv(i)), tag="arg_" + nm))
        elif kind == "vec":      # array of arbitrary length
            fn, n = z3.Function("arg_" + nm, z3.IntSort(), z3.RealSort()), z3.Int("len_" + spec.vec_len.get(nm, nm))
            ctx.assume(n >= 1)
            a[nm] = ctx.register(Arr(n, lambda i, fn=fn: fn(zv(i)), tag="spec_" + nm))
            vecs[nm] = ctx.register(Arr(n, lambda i, fn=fn: fn(zv(i)), tag="arg_" + nm))
        else:
            raise Unsupported(f"argument kind {kind}")
    for gname in spec.ghosts:
        a[gname] = z3.Int("ghost_" + gname) if gname in spec.int_ghosts else z3.Real("ghost_" + gname)
        if gname in spec.int_ghosts:
            ctx.note_index(a[gname])
    args = Args(a)
    ctx.spec_old, ctx.spec_args = old, args
    ctx.globals_override = {(k if isinstance(k, tuple) else (spec.module, k)): v for k, v in spec.module_globals(ops, args).items()}
    ctx.old = {"n": old.n if old else None}
    for nm, g in spec.requires(ops, old, args):
        ctx.assume(g)
    if grid is not None:
        sum_lemmas(ctx, grid.attrs["grid"])
    for g in spec.lemmas(ops, old, args):
        ctx.assume(g)
    for nm, g in spec.proved_lemmas(ops, old, args):
        ctx.named_all = True
        ctx.oblige(nm, g, kind="lemma")
        ctx.named_all = False
        ctx.assume(g)
    if grid is not None:
        ctx.pivots = list(spec.pivots(ops, old, args)) if hasattr(spec, "pivots") else []
        for p in ctx.pivots:
            if is_sym(p):
                ctx.note_index(p)
    if not vac.get("ok"):
        # vacuity guard: the precondition has a model (instantiated at the terms in play)
        st, _ = _run_z3(ctx.assertions(), 3000)
        if st == "unsat":
            raise Unsupported("contradictory precondition")
        vac["ok"] = True
        vac["status"] = st
    ctx.invgen = (lambda L: spec.invgen(ops, LoopView(L, ctx, grid)))
    call_args = spec.sym_call_args(grid, Args({**a, **vecs})) if hasattr(spec, "sym_call_args") else (
        ([grid] if grid is not None else []) + [vecs.get(nm, a[nm]) for nm, _ in spec.args])
    try:
        if getattr(spec, "drive", None):
            res = spec.drive(Driver(I, fv, grid), Args({**a, **vecs}))
        else:
            res = I.instantiate(fv, call_args, {}) if isinstance(fv, Cls) else I.call_inline(fv, call_args, {})
    except PyRaise as e:
        g = spec.on_raise(ops, old, args, e.kind)
        if g is None:
            g = z3.BoolVal(False)
        if os.environ.get("PYVC_DEBUG"):
            print("RAISES", e.kind, e.args)
        ctx.oblige(f"raises {e.kind} only as specified", g, kind="post")
        return
    new = view(grid) if grid is not None else None
    post = list(spec.ensures(ops, old, new, args, res))
    if grid is not None:
        post += spec.frame(ops, old, new)
    for nm, g in post:
        ctx.oblige(nm, g, kind="post")


def mval(model, t):
    v = model.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    raise ValueError("no value")


def extract(spec, model, ctx):
    """counter-model -> concrete input for the replay layer"""
    decls = {d.name(): d for d in model.decls()}
    out = {"args": {}, "layers": None, "props": None, "consts": {}}
    for nm, kind in spec.args:
        if kind == "int":
            out["args"][nm] = mval(model, z3.Int("arg_" + nm))
        elif kind in ("real", "np"):
            out["args"][nm] = mval(model, z3.Real("arg_" + nm))
        elif kind == "none":
            out["args"][nm] = None
        elif isinstance(kind, tuple):
            out["args"][nm] = kind[1]
        elif kind == "arr2":
            out["args"][nm] = [mval(model, z3.Real(f"arg_{nm}{i}")) for i in range(2)]
        elif kind == "vec":
            fn = z3.Function("arg_" + nm, z3.IntSort(), z3.RealSort())
            n = mval(model, z3.Int("len_" + spec.vec_len.get(nm, nm)))
            if not 0 < n <= 60:
                return None
            out["args"][nm] = [mval(model, fn(z3.IntVal(i))) for i in range(n)]
        elif kind == "arr":
            fn = z3.Function("arg_" + nm, z3.IntSort(), z3.RealSort())
            out["args"][nm] = [mval(model, fn(z3.IntVal(i))) for i in range(min(60, mval(model, z3.Int("n!1"))))]
    for c, v in ctx.const_values.items():
        if is_sym(v):
            out["consts"][c] = mval(model, v)
        elif isinstance(v, Fraction):
            out["consts"][c] = float(v)
        else:
            out["consts"][c] = v
    if spec.has_grid:
        n = mval(model, z3.Int("n!1"))
        if not 0 < n <= 60:
            return None
        layers = []
        names = [f"{k}!{i + 2}" for i, k in enumerate(FIELDS)]
        fs = [z3.Function(nm, z3.IntSort(), z3.RealSort()) for nm in names]
        for i in range(n):
            layers.append([mval(model, f(z3.IntVal(i))) for f in fs])
        out["layers"] = layers
        base = 2 + len(FIELDS) + len(ctx.functionals)
        out["props"] = [mval(model, z3.Real(f"{nm}!{base + j}")) for j, nm in enumerate(("nsh", "nst", "ost"))]
    return out
