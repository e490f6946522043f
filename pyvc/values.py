"""Symbolic values for the VC generator.

Numbers are Python ints / Fractions when concrete and z3 Int/Real terms when
symbolic (mathematical integers and reals: machine arithmetic is treated as
mathematical, which is a stated assumption).  Everything that Python mutates is
a HeapObj carrying an allocation-site tag so that loop havocking can find it.
"""
import ast
from fractions import Fraction
import z3

INF = float("inf")


class Unsupported(Exception):
    """Construct outside the supported subset: the proof is undecided."""


class Abandon(Exception):
    """End of a path that exists only to check obligations."""


class PyRaise(Exception):
    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class Special:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


NAN = Special("nan")
PINF = Special("inf")
NINF = Special("-inf")


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or (
        isinstance(v, z3.ArithRef)
    )


def is_boolish(v):
    return isinstance(v, (bool, z3.BoolRef))


def is_int(v):
    if isinstance(v, bool):
        return False
    if isinstance(v, int):
        return True
    return isinstance(v, z3.ArithRef) and v.is_int()


def lit(v):
    """Python literal -> engine number."""
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        if v != v:
            return NAN
        if v == INF:
            return PINF
        if v == -INF:
            return NINF
        return Fraction(repr(v))
    return v


def zv(v):
    """engine number -> z3 term"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(f"{v.numerator}/{v.denominator}")
    if isinstance(v, float):
        return zv(lit(v))
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported(f"not a number: {v!r}")


def zr(v):
    """as Real term"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.RealVal(v)
    t = zv(v)
    if z3.is_bool(t):
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if t.is_int():
        return z3.ToReal(t)
    return t


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    raise Unsupported(f"not a bool: {v!r}")


class HeapObj:
    tag = "?"


class Obj(HeapObj):
    """Instance of an interpreted class (Grid, a freestanding Node, IOClass)."""

    def __init__(self, cls, attrs=None, tag="?"):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.tag = tag

    def __repr__(self):
        return f"<{self.cls}:{self.tag}>"


class NodeList(HeapObj):
    """typed.List of Node as a struct of arrays with ghost totals."""

    FIELDS = ("height", "temperature", "liquid_water_content", "ice_fraction", "refreeze")

    def __init__(self, ctx, n, f, tot, tag="grid"):
        self.ctx = ctx
        self.n = n
        self.f = dict(f)
        self.tot = dict(tot)
        self.tag = tag
        self.structver = 0

    def snap(self):
        return NodeList(self.ctx, self.n, self.f, self.tot, self.tag + "#snap")

    def get(self, name, i):
        self.ctx.note_index(i)
        return self.f[name](i)

    def rec(self, i):
        return {k: self.get(k, i) for k in self.FIELDS}


class NodeRef:
    cls = "Node"

    def __init__(self, lst, idx):
        self.lst = lst
        self.idx = idx
        self.structver = lst.structver

    def check(self):
        if self.lst.structver != self.structver:
            raise Unsupported("stale node reference after structural change")


class Arr(HeapObj):
    """1-D array / list of numbers of symbolic length (closure of index)."""

    def __init__(self, n, at, tag="arr", kind="real", arange=None, islist=False, member=None):
        self.member = member      # lists grown in a loop: membership predicate
        self.n = n
        self.at = at
        self.tag = tag
        self.kind = kind
        self.arange = arange
        self.islist = islist

    def snap(self):
        return Arr(self.n, self.at, self.tag + "#snap", self.kind, self.arange, self.islist, self.member)


class Opaque:
    """A value we know nothing about (third-party result, string, ...)."""

    def __init__(self, name, attrs=None, contains=None, items=None):
        self.name = name
        self.attrs = attrs or {}
        self.contains = contains
        self.items = items

    def __repr__(self):
        return f"<opaque {self.name}>"


class Ext:
    """An external object (dataset, column handle, client) known only through a contract:
    subclasses say what reading, writing, membership and calls mean."""

    def get(self, I, name): raise Unsupported(f"attribute {name} of {type(self).__name__}")
    def set(self, I, name, v): raise Unsupported(f"setting {name} of {type(self).__name__}")
    def getitem(self, I, i): raise Unsupported(f"item of {type(self).__name__}")
    def setitem(self, I, i, v): raise Unsupported(f"item assignment to {type(self).__name__}")
    def contains(self, I, x): raise Unsupported(f"membership in {type(self).__name__}")
    def items(self, I): raise Unsupported(f"iteration over {type(self).__name__}")
    def truth(self, I): raise Unsupported(f"truth of {type(self).__name__}")
    def op(self, I, op, a, b): raise Unsupported(f"{op} on {type(self).__name__}")


class Nones(Ext):
    """np.array(n * [None])"""

    def getitem(self, I, i):
        if isinstance(i, slice):
            raise Unsupported("slice of an array of None")
        return None


class Builtin:
    def __init__(self, name, fn=None):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class ModuleVal:
    def __init__(self, name):
        self.name = name


class Func:
    def __init__(self, mod, node, cls=None, closure=None):
        self.mod = mod
        self.node = node
        self.cls = cls
        self.closure = closure

    @property
    def qualname(self):
        name = getattr(self.node, "name", "<lambda>")
        return f"{self.cls}.{name}" if self.cls else name

    def __repr__(self):
        return f"<func {self.mod.name}:{self.qualname}>"


class Cls:
    def __init__(self, mod, node):
        self.mod = mod
        self.node = node
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.props = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                names = [getattr(d, "id", getattr(d, "attr", "")) for d in s.decorator_list]
                if "setter" in names:
                    self.setters[s.name] = s
                elif "property" in names:
                    self.props[s.name] = s
                else:
                    self.methods[s.name] = s


class BoundMethod:
    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func


class Range:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class Forall:
    """Bounded universally quantified formula  lo <= i < hi  (and guard) -> body(i)."""

    def __init__(self, lo, hi, body, guard=None):
        self.lo, self.hi, self.body, self.guard = lo, hi, body, guard

    def inst(self, i):
        b = self.body(i)
        if isinstance(b, (list, tuple)):
            b = z3.And(*[zb(x) for x in b])
        c = [zv(self.lo) <= zv(i), zv(i) < zv(self.hi)]
        if self.guard is not None:
            c.append(zb(self.guard))
        return z3.Implies(z3.And(*c), zb(b))
