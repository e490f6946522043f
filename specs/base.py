"""Contracts, written once and read in two ways.

`Spec.requires` / `Spec.ensures` are evaluated over z3 terms by the deductive
verifier (pyvc.prove) and over floats by the concrete layer (concrete/run.py):
what is proved and what is replayed on the real code is the same text.
This module must not import z3 (the concrete layer runs without it).
"""
import math
import tomllib
import os

REPO = os.environ.get("PYVC_REPO", "/repo")
FIELDS = ("height", "temperature", "liquid_water_content", "ice_fraction", "refreeze")


def flat_toml(path):
    with open(path, "rb") as f:
        t = tomllib.load(f)
    flat = {}

    def rec(d):
        for k, v in d.items():
            if isinstance(v, dict):
                rec(v)
            else:
                flat[k] = v

    rec(t)
    return flat


class Seq:
    def __init__(self, x):
        self.x = [float(v) for v in x]
        self.n = len(self.x)

    def at(self, i):
        return self.x[int(i)] if 0 <= i < self.n else math.nan


class NumOps:
    """float interpretation; comparisons carry a rounding tolerance"""

    symbolic = False
    rtol = 1e-9
    atol = 1e-9

    def __init__(self, consts):
        self.consts = consts

    def const(self, name):
        return self.consts[name]

    def num(self, x):
        return float(x)

    def tol(self, *xs):
        return self.atol + self.rtol * max(abs(float(x)) for x in xs)

    def pure(self, spec, c):
        return spec.value(self, c)

    def eq(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        return abs(a - b) <= self.tol(a, b)

    def le(self, a, b):
        return a <= b + self.tol(a, b)

    def ge(self, a, b):
        return self.le(b, a)

    def lt(self, a, b):
        return a < b + self.tol(a, b)

    def slt(self, a, b):
        """strictly below, rounding aside (used for guards: false when in doubt)"""
        return a < b - self.tol(a, b)

    def sle(self, a, b):
        return a <= b

    def gt(self, a, b):
        return self.lt(b, a)

    def pos(self, a):
        return a > 0

    def ieq(self, a, b):
        return a == b

    def iff(self, a, b):
        return bool(a) == bool(b)

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or b

    def forall(self, lo, hi, body):
        for i in range(int(lo), int(hi)):
            b = body(i)
            if isinstance(b, (list, tuple)):
                b = all(b)
            if not b:
                return False
        return True

    def not_all(self, lo, hi, body):
        return not self.forall(lo, hi, body)

    def any_of(self, *alts):
        return any(all(x for x in alt) for alt in alts)

    def opaque(self, name, args, definition):
        """a named function of args; only contracts that list it in `reveal` see its definition"""
        return definition()

    def named(self, name, i, definition):
        return definition(i)

    def seq(self, x):
        return Seq(x)

    def obj(self, name, **attrs):
        from types import SimpleNamespace
        return SimpleNamespace(**attrs)

    def get(self, obj, name):
        return getattr(obj, name)

    def same(self, a, b):
        return type(a) is type(b) and a == b

    def grid2(self, x):
        class G:
            shape = x.shape
            at = staticmethod(lambda i, j: float(x[int(i), int(j)]))
        return G

    def field(self, obj, name):
        return float(getattr(obj, name))

    def ssum(self, x):
        return float(sum(x))

    def prefix(self, c, f, k):
        return sum(f(i) for i in range(int(k)))

    def ite(self, c, a, b):
        return a if c else b

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def abs(self, a):
        return abs(a)

    def div(self, a, b):
        return a / b

    def exp(self, x):
        return math.exp(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def pow(self, x, k):
        return x ** k

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def radians(self, x):
        return math.radians(x)

    def asin(self, x):
        return math.asin(x)

    def near(self, a, b):
        """equal, allowing for ill-conditioned rounding"""
        return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))

    def log(self, x):
        return math.log(x)

    def finite(self, *xs):
        return all(math.isfinite(float(x)) for x in xs)


class Col:
    """Abstract view of a column: what contracts talk about."""

    def __init__(self, n, get, tot, nn, nsh, nst, ost):
        self.n, self._get, self.tot = n, get, tot
        self.number_nodes, self.nsh, self.nst, self.ost = nn, nsh, nst, ost

    def h(self, i): return self._get("height", i)
    def T(self, i): return self._get("temperature", i)
    def w(self, i): return self._get("liquid_water_content", i)
    def f(self, i): return self._get("ice_fraction", i)
    def r(self, i): return self._get("refreeze", i)
    def rec(self, i): return {k: self._get(k, i) for k in FIELDS}

    @property
    def H(self): return self.tot["H"]
    @property
    def ICE(self): return self.tot["ICE"]
    @property
    def WAT(self): return self.tot["WAT"]
    @property
    def HEAT(self): return self.tot["HEAT"]


def num_col(ops, layers, nn, props):
    ls = [dict(zip(FIELDS, l)) for l in layers]
    tot = {
        "H": sum(l["height"] for l in ls),
        "ICE": sum(l["height"] * l["ice_fraction"] for l in ls),
        "WAT": sum(l["height"] * l["liquid_water_content"] for l in ls),
        "HEAT": sum(l["height"] * l["temperature"] for l in ls),
        "REF": sum(l["refreeze"] for l in ls),
        "MASS": sum(l["height"] * density(ops, l["ice_fraction"], l["liquid_water_content"]) for l in ls),
    }
    def get(k, i):
        # out of range reads give nan, so that a guarded clause may mention them
        return ls[int(i)][k] if 0 <= i < len(ls) else math.nan

    return Col(len(ls), get, tot, nn, *props)


def air(o, f, w):
    return o.max(o.num(0), 1 - w - f)


def density(o, f, w):
    return f * o.const("ice_density") + w * o.const("water_density") + air(o, f, w) * o.const("air_density")


def rho(o, c, i):
    return density(o, c.f(i), c.w(i))


def irr(o, f):
    """irreducible water content of a layer with ice fraction f (Coleou & Lesaffre)"""
    return o.ite(
        o.sle(f, o.num(0.23)),
        o.num(0.0264) + o.num(0.0099) * o.div(1 - f, f),
        o.ite(o.sle(f, o.num(0.812)), o.num(0.08) - o.num(0.1023) * (f - o.num(0.03)), o.num(0)),
    )


def specific_heat(o, f, w):
    return f * o.const("spec_heat_ice") + air(o, f, w) * o.const("spec_heat_air") + w * o.const("spec_heat_water")


def same_rec(o, a, i, b, j, fields=FIELDS):
    return o.and_(*[o.eq(a._get(k, i), b._get(k, j)) for k in fields])


def same_bookkeeping(o, a, b):
    return o.and_(o.eq(a.nsh, b.nsh), o.eq(a.nst, b.nst), o.eq(a.ost, b.ost))


def valid_layers(o, c):
    """well-formed column: the precondition shared by most contracts"""
    return [
        ("layer count", o.and_(o.ieq(c.number_nodes, c.n), o.ge(c.n, 1))),
        ("thickness > 0", o.forall(0, c.n, lambda i: o.pos(c.h(i)))),
        ("0 < ice <= 1", o.forall(0, c.n, lambda i: o.and_(o.pos(c.f(i)), o.sle(c.f(i), o.num(1))))),
        ("water >= 0", o.forall(0, c.n, lambda i: o.sle(o.num(0), c.w(i)))),
        ("T > 0", o.forall(0, c.n, lambda i: o.pos(c.T(i)))),
    ]


ASSUMPTIONS = [
    "machine arithmetic is treated as mathematical (reals/integers); rounding, overflow and NaN propagation are outside the proofs (the executed contracts use a 1e-9 tolerance)",
    "numba compiles the functions to the semantics of their Python text (decorators are dropped by the extraction; the executed contracts run the text under CPython)",
    "dropped by the extraction: decorators, annotations, docstrings, print/warnings calls, NumPy dtypes",
    "exp, log, tanh, sqrt, sin, cos, arctan are uninterpreted with the axioms listed in pyvc/ctx.py (sign, bounds, monotonicity, sin^2+cos^2=1)",
    "module-level constants have the values of /repo/constants.toml and config.toml except where a contract leaves them symbolic or lists cases",
]


class Spec:
    """Contract of one function of /repo."""

    module = None            # e.g. cosipy.cpkernel.grid
    qual = None              # e.g. Grid.merge_nodes
    prop = None
    args = ()                # ((name, 'int'|'real'), ...) after GRID/self
    has_grid = True
    result = None            # None | 'real' | 'int'
    modifies = ()            # fields written; '#struct' when layers come and go
    modifies_attrs = ()      # grid attributes written (number_nodes implied by #struct)
    uses = ()                # callee specs applied modularly
    cases = ({},)            # constant overrides, one proof each
    sym_consts = ()          # constants left symbolic (see const_requires)
    functionals = ("H", "ICE", "WAT", "HEAT")
    timeout_ms = 4000
    budget = 300             # seconds of proof time per case
    bounded_only = False
    search_seconds = 6
    note = ""
    reveal = ()              # opaque functions whose definition this contract may use
    raises = ()
    partial = False          # True: definedness (division, index, log) is assumed, not proved

    def stubs(self, o, ctx):
        """contracts of functions that take no column: {qualified name: python callable (interp, args, kwargs)}"""
        return {}

    auto_invariants = True   # False: exactly the contract's loop invariants
    merge_ifs = False        # conditionals that only assign numbers become conditional values
    class_home = {}          # {class name: module} for class objects handled by the contract
    vec_len = {}             # {array argument: name of the argument it shares its length with}

    def module_globals(self, o, a):
        """module-level names of the function's module that the contract fixes"""
        return {}

    def call_ghosts(self, o, callee, a, ca):
        """logical variables of a callee's contract, at a call with arguments ca"""
        return {}

    def requires(self, o, old, a):
        return valid_layers(o, old) if self.has_grid else []

    def const_requires(self, o):
        return []

    def ensures(self, o, old, new, a, res):
        return []

    def on_raise(self, o, old, a, kind):
        """None: the exception is a violation; otherwise a formula that must hold"""
        return None

    def invgen(self, o, L):
        return []

    def lemmas(self, o, old, a):
        return []

    def proved_lemmas(self, o, old, a):
        """facts about the pre-state: proved first, then available"""
        return []

    base_consts = {}         # constants fixed for the concrete runs
    nan_ok = False

    def frame(self, o, old, new):
        """what the contract says is untouched"""
        out = []
        if "#struct" not in self.modifies:
            out.append(("frame: layer count unchanged", o.and_(o.ieq(new.n, old.n), o.ieq(new.number_nodes, old.number_nodes))))
            for f in FIELDS:
                if f not in self.modifies:
                    out.append((f"frame: {f} unchanged", o.forall(0, old.n, lambda i, f=f: o.eq(new._get(f, i), old._get(f, i)))))
        for at, nm in (("nsh", "new_snow_height"), ("nst", "new_snow_timestamp"), ("ost", "old_snow_timestamp")):
            if nm not in self.modifies_attrs:
                out.append((f"frame: {nm} unchanged", o.eq(getattr(new, at), getattr(old, at))))
        return out

    def directed(self):
        return []

    int_ghosts = ()
    ghosts = ()              # logical variables: universally quantified in the contract

    def ghost_values(self, o, old, a):
        """their values on a concrete input"""
        return {}

    # ---- concrete side
    def gen(self, rng):
        raise NotImplementedError

    def invoke(self, env, inp):
        """run the real function; default: Grid method or function of GRID"""
        return env.default_invoke(self, inp)


# ---------------------------------------------------------------- generators
def rand_layer(rng, kind=None, T=None):
    kind = kind or rng.choice(["snow", "snow", "firn", "ice"])
    if kind == "snow":
        f = rng.choice([rng.uniform(0.05, 0.25), rng.uniform(0.2, 0.6)])
    elif kind == "firn":
        f = rng.uniform(0.6, 0.93)
    else:
        f = rng.choice([rng.uniform(0.985, 0.999), 0.99])
    w = rng.choice([0.0, 0.0, rng.uniform(0, 0.01), rng.uniform(0, 0.12), rng.uniform(0, 1 - f)])
    w = max(0.0, min(w, 1 - f))
    h = rng.choice([rng.uniform(0.0005, 0.02), rng.uniform(0.01, 0.3), rng.uniform(0.1, 3.0)])
    t = T if T is not None else rng.choice([273.16, 273.16 - rng.expovariate(1.0), rng.uniform(240, 273.16)])
    t = max(t, 200.0)
    return [h, t, w, f, rng.choice([0.0, rng.uniform(0, 1e-3)])]


def rand_column(rng, nmin=1, nmax=9, snow_on_ice=False, T=None, snow=None, ice=None):
    n = rng.randint(nmin, nmax)
    if not snow_on_ice:
        return [rand_layer(rng, T=T) for _ in range(n)]
    s = snow if snow is not None else rng.randint(0, n)
    out = []
    for i in range(n):
        if i < s:
            l = rand_layer(rng, rng.choice(["snow", "snow", "firn"]), T)
            # a snow layer is one whose density is below the snow-ice threshold
            if 917 * l[3] + 1000 * l[2] + 1.1 * max(0, 1 - l[2] - l[3]) >= 899:
                l[2] = 0.0
        else:
            l = rand_layer(rng, "ice", T)
        out.append(l)
    return out


def rand_props(rng):
    return [rng.choice([0.0, rng.uniform(0, 0.3)]), rng.choice([0, rng.uniform(0, 4e6)]), rng.uniform(0, 4e6)]


def between(o, x, a, b):
    return o.and_(o.or_(o.le(a, x), o.le(b, x)), o.or_(o.le(x, a), o.le(x, b)))


def is_snow(o, c, i):
    return rho(o, c, i) < o.const("snow_ice_threshold")


def in_range(o, c, a):
    """all temperatures / ice fractions within the ghost bounds"""
    return [
        ("temperatures within bounds", o.forall(0, c.n, lambda i: o.and_(o.le(a.Tlo, c.T(i)), o.le(c.T(i), a.Thi)))),
        ("ice fractions within bounds", o.forall(0, c.n, lambda i: o.and_(o.le(a.Flo, c.f(i)), o.le(c.f(i), a.Fhi)))),
    ]


RANGE_GHOSTS = ("Tlo", "Thi", "Flo", "Fhi")


def range_ghosts(old):
    n = old.n
    return {"Tlo": min(old.T(i) for i in range(n)), "Thi": max(old.T(i) for i in range(n)),
            "Flo": min(old.f(i) for i in range(n)), "Fhi": max(old.f(i) for i in range(n))}
