"""Models of the built-ins and of the NumPy / math subset the code uses.

Each model states the mathematical meaning over exact reals; dtype, rounding,
NaN propagation and broadcasting beyond scalar-vs-vector are dropped.
"""
import ast
from fractions import Fraction

import z3

from .ctx import index_args
from .values import *
from .values import Range


class View:
    """iterable of symbolic length"""

    def __init__(self, lo, hi, elem):
        self.lo, self.hi, self.elem = lo, hi, elem


BUILTINS = {"setattr", "max", "min", "abs", "sum", "len", "range", "float", "int", "str", "bool", "list", "tuple", "dict",
            "sorted", "enumerate", "zip", "isinstance", "print", "round", "pow", "any", "all", "reversed",
            "getattr", "hasattr", "set", "type", "map", "super"}
EXC = {"ValueError", "RuntimeError", "TypeError", "KeyError", "IndexError", "NotImplementedError", "Exception",
       "AttributeError", "NameError", "SystemExit", "ZeroDivisionError", "FileNotFoundError"}

NP_ALIASES = {"float64", "float32", "int64", "ndarray"}


class Arr2D:
    """matrix: only built, passed on and read"""

    def __init__(self, n0, n1, at):
        self.shape, self.at = (n0, n1), at


class Lib:
    def __init__(self, interp):
        self.I = interp

    @property
    def ctx(self):
        return self.I.ctx

    # ------------------------------------------------------------ names
    def builtin(self, name):
        if name in BUILTINS:
            return Builtin(name)
        if name in EXC:
            return Builtin("exc." + name)
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        if name == "__name__":
            return "module"
        return None

    def from_import(self, mod, name):
        if mod in ("numba", "numba.experimental", "numba.core.extending", "numba.np.numpy_support"):
            if name in ("typed", "types"):
                return ModuleVal("numba." + name)
            return Builtin("numba." + name)
        if mod == "math":
            return Builtin("np." + name) if name != "pi" else self.ctx.pi()
        hook = getattr(self.ctx, "import_hook", None)
        if hook:
            r = hook(mod, name)
            if r is not NotImplemented:
                return r
        return Opaque(f"{mod}.{name}")

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, ModuleVal):
            m = o.name
            if m in ("numpy", "math", "np"):
                if name == "pi":
                    return self.ctx.pi()
                if name in ("nan", "NaN"):
                    return NAN
                if name in ("inf", "Inf"):
                    return PINF
                if name == "linalg":
                    return ModuleVal("np.linalg")
                return Builtin("np." + name)
            if m == "np.linalg":
                return Builtin("np.linalg." + name)
            if m.startswith("numba"):
                return Builtin(m + "." + name)
            if m in ("sys", "os", "warnings", "logging"):
                hook = getattr(self.ctx, "opaque_getattr", None)
                if hook:
                    r = hook(o, name)
                    if r is not NotImplemented:
                        return r
                return Builtin(m + "." + name)
            hook = getattr(self.ctx, "opaque_getattr", None)
            if hook:
                r = hook(o, name)
                if r is not NotImplemented:
                    return r
            return Opaque(m + "." + name)
        if isinstance(o, Builtin):
            if o.name == "numba.typed.List" or o.name.startswith("numba.typed"):
                return Builtin(o.name + "." + name)
            return Builtin(o.name + "." + name)
        if isinstance(o, Cls):
            if name in o.methods:
                return Func(o.mod, o.methods[name], o.name)
            return Opaque(f"{o.name}.{name}", {"instance_type": Opaque("type " + o.name)} if name == "class_type" else None)
        if isinstance(o, NodeList):
            I = self.I
            if name == "append":
                return lambda v: I.nl_insert(o, o.n, v)
            if name == "insert":
                return lambda i, v: I.nl_insert(o, i, v)
            if name == "pop":
                def pop(i=-1):
                    I.nl_delete(o, i)
                return pop
            raise Unsupported(f"list method {name}")
        if is_num(o) or is_boolish(o):
            if name == "item":
                return lambda: o
            if name == "real":
                return o
            if name in ("flatten", "copy", "squeeze"):
                return lambda: o
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if isinstance(o, list):
            if name == "append":
                def app(v):
                    self.I.note_write_list(o)
                    o.append(v)
                return app
            if name in ("extend", "insert", "pop", "index", "count"):
                f = getattr(o, name)
                return lambda *a: f(*a)
        if isinstance(o, dict):
            if name in ("items", "keys", "values"):
                f = getattr(o, name)
                return lambda: [tuple(x) if name == "items" else x for x in f()]
            if name in ("get", "pop", "update", "copy", "setdefault"):
                return getattr(o, name)
        if isinstance(o, str):
            if name in ("join",):
                return lambda xs: o.join(xs) if all(isinstance(x, str) for x in xs) else Opaque("str")
            if name == "format":
                return lambda *a, **k: Opaque("str")
            f = getattr(o, name, None)
            if f is not None:
                return f
        if isinstance(o, Special):
            if name == "item":
                return lambda: o
        if o is None:
            raise PyRaise("AttributeError", f"None.{name}")
        raise Unsupported(f"attribute {name} of {o!r}")

    def arr_attr(self, a, name):
        if name == "shape":
            return (a.n,)
        if name == "size":
            return a.n
        if name in ("flat", "values", "T"):
            return a
        if name == "item":
            def item():
                if isinstance(a.n, int) and a.n == 1:
                    return a.at(0)
                raise PyRaise("ValueError", "item")
            return item
        if name == "argmin":
            return lambda: self.argmin(a)
        if name == "append":
            def app(v):
                self.I.note_write(a, "#append")
                n, old = a.n, a.at
                if a.tag.startswith("wl@") and a.member is None and is_int(v) and a.tag not in self.ctx.intlists:
                    self.ctx.intlists.add(a.tag)
                    self.ctx.dirty = True
                if a.member is not None:
                    mem = a.member
                    a.member = lambda i: z3.Or(mem(i), zv(i) == zv(v))
                v2 = v
                a.at = lambda i: self.I.ite_any(self.I.idx_eq(i, n), v2, old, i)
                a.n = self.I.simp_int(zv(n) + 1)
            return app
        if name in ("min", "max", "sum", "mean", "any", "all"):
            return lambda *x: self.call(Builtin("np." + name), [a], {})
        if name in ("copy", "tolist", "flatten", "astype", "ravel"):
            return lambda *x, **k: self.copy_arr(a)
        raise Unsupported(f"array attribute {name}")

    # ------------------------------------------------------------ helpers
    def scalar(self, v):
        if isinstance(v, Arr):
            if isinstance(v.n, int) and v.n == 1:
                return v.at(0)
            raise Unsupported("array used as a scalar")
        return v

    def to_arr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, (list, tuple)):
            items = list(v)
            for x in items:
                if not (is_num(x) or is_boolish(x) or isinstance(x, Special)):
                    if isinstance(x, Arr):
                        x2 = self.scalar(x)
                        items[items.index(x)] = x2
                    else:
                        raise Unsupported(f"array of {x!r}")

            def at(i):
                if isinstance(i, int):
                    return items[i]
                r = items[-1]
                for k in range(len(items) - 2, -1, -1):
                    r = self.I.ite(zv(i) == k, items[k], r)
                return r

            return self.ctx.register(Arr(len(items), at, tag=self.ctx.alloc_tag("arr")))
        raise Unsupported(f"not an array: {v!r}")

    def copy_arr(self, a):
        r = Arr(a.n, a.at, tag=self.ctx.alloc_tag("copy"), kind=a.kind, arange=a.arange)
        return self.ctx.register(r)

    def ew(self, f, *xs, safe=False):
        """elementwise application"""
        arrs = [x for x in xs if isinstance(x, Arr)]
        if any(isinstance(x, (list, tuple)) for x in xs):
            return self.ew(f, *[self.to_arr(x) if isinstance(x, (list, tuple)) else x for x in xs], safe=safe)
        if not arrs:
            return f(*xs)
        n = None
        for a in arrs:
            if isinstance(a.n, int) and a.n == 1 and len(arrs) > 1:
                continue
            if n is None:
                n = a.n
            elif not (isinstance(n, int) and isinstance(a.n, int) and n == a.n):
                self.ctx.oblige("operand shapes match", zv(n) == zv(a.n), kind="safe")
        if n is None:
            n = 1
        ats = []
        for x in xs:
            if isinstance(x, Arr):
                if isinstance(x.n, int) and x.n == 1 and not (isinstance(n, int) and n == 1):
                    v = x.at(0)
                    ats.append(lambda i, v=v: v)
                else:
                    ats.append(x.at)
            else:
                ats.append(lambda i, v=x: v)

        def at(i):
            return self.I.merged(lambda: f(*[g(i) for g in ats]))

        r = self.ctx.register(Arr(n, at, tag=self.ctx.alloc_tag("ew")))
        if safe:
            k = self.ctx.int("ew")
            self.ctx.guarded_obligations(z3.And(k >= 0, k < zv(n)), lambda: at(k))
        if not isinstance(n, int):
            r.at = self.closed(r)
        return r

    # ------------------------------------------------------------ operators
    def unary(self, op, v):
        if isinstance(op, ast.USub):
            if isinstance(v, Special):
                return {"inf": NINF, "-inf": PINF}.get(v.name, NAN)
            if isinstance(v, bool):
                v = int(v)
            return self.ew(lambda x: -x, v)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, bool):
                return not v
            if isinstance(v, z3.BoolRef):
                return z3.Not(v)
            if isinstance(v, Arr):
                return self.ew(lambda x: (not x) if isinstance(x, bool) else z3.Not(x), v)
        if isinstance(v, Opaque):
            return self.opaque_op(type(op).__name__, v)
        raise Unsupported("unary")

    def opaque_op(self, op, *args):
        hook = getattr(self.ctx, "opaque_op", None)
        if hook:
            r = hook(op, *args)
            if r is not NotImplemented:
                return r
        raise Unsupported(f"operation {op} on {args!r}")

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def binop(self, op, a, b):
        if isinstance(a, Ext) or isinstance(b, Ext):
            return (a if isinstance(a, Ext) else b).op(self.I, type(op).__name__, a, b)
        if isinstance(op, ast.Mult) and ((isinstance(a, list) and is_sym(b)) or (isinstance(b, list) and is_sym(a))):
            xs, n = (a, b) if isinstance(a, list) else (b, a)
            if len(xs) == 1 and xs[0] is None:
                return Nones()
            if len(xs) == 1 and is_num(xs[0]):
                return self.ctx.register(Arr(self.I.ite(zv(n) > 0, n, 0), lambda i, x=xs[0]: x, tag=self.ctx.alloc_tag("rep"), islist=True))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.opaque_op(type(op).__name__, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(op, ast.Add) and getattr(a, "islist", False) and getattr(b, "islist", False):
                raise Unsupported("list concatenation")
            if isinstance(op, ast.Mult) and (getattr(a, "islist", False) or getattr(b, "islist", False)):
                raise Unsupported("list repetition")
            return self.ew(lambda x, y: self.binop(op, x, y), a, b, safe=isinstance(op, ast.Div))
        if isinstance(op, ast.Add) and isinstance(a, (list, tuple)) and isinstance(b, type(a)):
            return a + b
        if isinstance(op, ast.Mult) and isinstance(a, (list, str)) and isinstance(b, int):
            return a * b
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            return Opaque("str")
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and is_boolish(a) and is_boolish(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return {ast.BitAnd: a and b, ast.BitOr: a or b, ast.BitXor: a != b}[type(op)]
            f = {ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[type(op)]
            return f(zb(a), zb(b))
        if a is None or b is None:
            raise PyRaise("TypeError", "None in arithmetic")
        a, b = self.num(a), self.num(b)
        if isinstance(a, Special) or isinstance(b, Special):
            return self.special_op(op, a, b)
        if not (is_num(a) and is_num(b)):
            raise Unsupported(f"operands {a!r}, {b!r}")
        if isinstance(op, ast.Add):
            return self.arith(lambda x, y: x + y, a, b)
        if isinstance(op, ast.Sub):
            return self.arith(lambda x, y: x - y, a, b)
        if isinstance(op, ast.Mult):
            return self.arith(lambda x, y: x * y, a, b)
        if isinstance(op, ast.Div):
            if not is_sym(a) and not is_sym(b):
                if b == 0:
                    self.ctx.oblige("division by zero", z3.BoolVal(False), kind="safe")
                    raise PyRaise("ZeroDivisionError")
                return Fraction(a) / Fraction(b)
            return self.ctx.divide(a, b)
        if isinstance(op, ast.Pow):
            return self.power(a, b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if not is_sym(a) and not is_sym(b):
                return a // b if isinstance(op, ast.FloorDiv) else a % b
            if is_int(a) and is_int(b) and isinstance(b, int) and b > 0:
                return zv(a) / zv(b) if isinstance(op, ast.FloorDiv) else zv(a) % zv(b)
            if isinstance(op, ast.FloorDiv):
                return z3.ToReal(z3.ToInt(zr(self.ctx.divide(a, b))))
        raise Unsupported(f"operator {type(op).__name__}")

    def arith(self, f, a, b):
        if not is_sym(a) and not is_sym(b):
            return f(a, b)
        if is_int(a) and is_int(b):
            return f(zv(a), zv(b))
        return f(zr(a), zr(b))

    def special_op(self, op, a, b):
        if a is NAN or b is NAN:
            return NAN
        if isinstance(op, ast.Add):
            if isinstance(a, Special) and isinstance(b, Special) and a is not b:
                return NAN
            return a if isinstance(a, Special) else b
        if isinstance(op, ast.Sub):
            if isinstance(a, Special) and not isinstance(b, Special):
                return a
            if isinstance(b, Special) and not isinstance(a, Special):
                return NINF if b is PINF else PINF
        raise Unsupported("arithmetic on infinity")

    def power(self, a, b):
        if isinstance(a, (list, tuple, Arr)) or isinstance(b, (list, tuple, Arr)):
            return self.ew(self.power, a, b)
        if not is_sym(a) and not is_sym(b):
            if isinstance(b, int) or Fraction(b).denominator == 1:
                return Fraction(a) ** int(b)
        if not is_sym(b) and Fraction(b).denominator == 1:
            k = int(b)
            if 0 <= k <= 6:
                r = Fraction(1)
                for _ in range(k):
                    r = self.arith(lambda x, y: x * y, r, a) if is_sym(r) or r != 1 else a
                return r
            if -4 <= k < 0:
                return self.ctx.divide(Fraction(1), self.power(a, -k))
        if not is_sym(b) and Fraction(b) == Fraction(1, 2):
            return self.ctx.fn("sqrt", a)
        # general power: only sign, monotonicity in the base for a fixed exponent
        if not is_sym(b):
            nm = f"pow[{Fraction(b)}]"
            x = zr(a)
            f = z3.Function(nm, z3.RealSort(), z3.RealSort())
            t = f(x)
            lst = self.ctx.fnapps.setdefault(nm, [])
            if any(p.get_id() == x.get_id() for p, _ in lst):
                return t
            ax = [z3.Implies(x > 0, t > 0), z3.Implies(x == 1, t == 1)]
            if Fraction(b) > 0:
                ax += [z3.Implies(x == 0, t == 0), z3.Implies(x > 1, t > 1), z3.Implies(z3.And(x > 0, x < 1), t < 1)]
                for p, q in lst:
                    ax += [z3.Implies(z3.And(p > 0, p < x), q < t), z3.Implies(z3.And(x > 0, x < p), t < q)]
            else:
                ax += [z3.Implies(x > 1, t < 1), z3.Implies(z3.And(x > 0, x < 1), t > 1)]
                for p, q in lst:
                    ax += [z3.Implies(z3.And(p > 0, p < x), q > t), z3.Implies(z3.And(x > 0, x < p), t > q)]
            lst.append((x, t))
            for c in ax:
                self.ctx.assume(c)
            return t
        f = z3.Function("pow2", z3.RealSort(), z3.RealSort(), z3.RealSort())
        t = f(zr(a), zr(b))
        self.ctx.assume(z3.Implies(zr(a) > 0, t > 0))
        return t

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_same(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_same(a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.opaque_op(type(op).__name__, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.ew(lambda x, y: self.compare(op, x, y), a, b)
        if isinstance(a, (str, type(None), tuple, list, dict)) or isinstance(b, (str, type(None), tuple, list, dict)):
            if isinstance(op, ast.Eq):
                return self.is_same(a, b) if (a is None or b is None) else (type(a) == type(b) and a == b)
            if isinstance(op, ast.NotEq):
                return not (self.is_same(a, b) if (a is None or b is None) else (type(a) == type(b) and a == b))
            if a is None or b is None:
                raise PyRaise("TypeError", "comparison with None")
            if isinstance(a, str) and isinstance(b, str):
                return {ast.Lt: a < b, ast.Gt: a > b, ast.LtE: a <= b, ast.GtE: a >= b}[type(op)]
            raise Unsupported("comparison")
        if isinstance(a, Special) or isinstance(b, Special):
            return self.special_cmp(op, a, b)
        if is_boolish(a) and is_boolish(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return {ast.Eq: a == b, ast.NotEq: a != b}[type(op)]
            return zb(a) == zb(b) if isinstance(op, ast.Eq) else zb(a) != zb(b)
        a, b = self.num(a), self.num(b)
        if not (is_num(a) and is_num(b)):
            raise Unsupported(f"comparison of {a!r} and {b!r}")
        f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y,
             ast.GtE: lambda x, y: x >= y, ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y}[type(op)]
        if not is_sym(a) and not is_sym(b):
            return f(a, b)
        if is_int(a) and is_int(b):
            return f(zv(a), zv(b))
        return f(zr(a), zr(b))

    def special_cmp(self, op, a, b):
        if a is NAN or b is NAN:
            return isinstance(op, ast.NotEq)
        rank = lambda v: {PINF: 1, NINF: -1}.get(v, 0) if isinstance(v, Special) else 0
        x, y = rank(a), rank(b)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y,
                ast.Eq: x == y and a is b, ast.NotEq: not (x == y and a is b)}[type(op)]

    def is_same(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if is_boolish(a) and is_boolish(b):
            return zb(a) == zb(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return a is b

    def contains(self, c, x):
        if isinstance(c, dict):
            return x in c
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (list, tuple)):
            out = []
            for y in c:
                r = self.compare(ast.Eq(), x, y)
                if r is True:
                    return True
                if r is not False:
                    out.append(zb(r))
            return z3.Or(*out) if out else False
        if isinstance(c, Arr):
            if isinstance(c.n, int):
                return self.contains([c.at(i) for i in range(c.n)], x)
        if isinstance(c, Ext):
            return c.contains(self.I, x)
        if isinstance(c, Opaque):
            if c.contains is not None:
                return c.contains(x)
            return self.opaque_op("In", c, x)
        raise Unsupported("membership")

    # ------------------------------------------------------------ iteration
    def iter_view(self, it):
        if isinstance(it, Ext):
            return it.items(self.I)
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, Range):
            lo, hi, st = it.lo, it.hi, it.step
            if all(isinstance(x, int) for x in (lo, hi, st)):
                if abs(hi - lo) <= 80 or getattr(self.ctx, "unroll_ranges", False):
                    return list(range(lo, hi, st))
            if st == 1:
                return lo, hi, (lambda i: i)
            if st == -1:
                n = zv(lo) - zv(hi)
                return 0, self.I.simp_int(n), (lambda i: self.I.simp_int(zv(lo) - zv(i)))
            raise Unsupported("range step")
        if isinstance(it, Arr):
            if isinstance(it.n, int):
                return [it.at(i) for i in range(it.n)]
            return 0, it.n, it.at
        if isinstance(it, NodeList):
            if isinstance(it.n, int):
                return [NodeRef(it, i) for i in range(it.n)]
            return 0, it.n, (lambda i: NodeRef(it, i))
        if isinstance(it, View):
            return it.lo, it.hi, it.elem
        hook = getattr(self.ctx, "opaque_iter", None)
        if hook:
            r = hook(it)
            if r is not NotImplemented:
                return r
        raise Unsupported(f"iteration over {it!r}")

    # ------------------------------------------------------------ sums
    def sum_arr(self, a):
        from .interp import FilteredArr
        if isinstance(a, FilteredArr):
            return self.sum_filtered(a)
        if isinstance(a, (list, tuple)):
            r = 0
            for x in a:
                r = self.binop(ast.Add(), r, x)
            return r
        if isinstance(a.n, int) and a.n <= 6:
            r = 0
            for i in range(a.n):
                r = self.binop(ast.Add(), r, a.at(i))
            return r
        # constant summand
        body, _ = self.ctx.body_at(a.at, a.n)
        if not is_sym(body):
            return self.arith(lambda x, y: x * y, body, a.n)
        t = self.match_total(body, a.n)
        if t is not None:
            return t
        P = self.prefix(a.at, a.n)
        return P(a.n)

    def match_total(self, body, n):
        body = z3.simplify(zr(body))
        for o in list(self.ctx.heap.values()):
            if isinstance(o, NodeList) and self.I.idx_eq(o.n, n) is True:
                j = z3.Int("J!")
                rec = {k: o.f[k](j) for k in NodeList.FIELDS}
                for fname, F in self.ctx.functionals.items():
                    if z3.simplify(zr(F.fn(rec))).get_id() == body.get_id():
                        return o.tot[fname]
        return None

    def prefix(self, at, n):
        j = z3.Int("J!")
        P = self.ctx.prefix(at, n)
        new = not any(isinstance(x, PrefixMono) and x.f is P.f for x in self.ctx.foralls)
        body = P.body
        for o in list(self.ctx.heap.values()):
            if isinstance(o, NodeList):
                rec = {k: o.f[k](j) for k in NodeList.FIELDS}
                for fname, F in self.ctx.functionals.items():
                    if z3.simplify(zr(F.fn(rec))).get_id() == body.get_id():
                        self.ctx.assume(P.f(zv(o.n)) == o.tot[fname])
                        n = o.n
        if new:
            # monotonicity lemma (induction over the length), premise discharged here
            named = z3.is_app(body) and body.decl().name().startswith("nm_")
            for strict in (False,) if named else (True, False):
                if self.ctx.entails(Forall(0, n, lambda i: zr(P.at(i)) > 0 if strict else zr(P.at(i)) >= 0)):
                    self.ctx.foralls.append(PrefixMono(self.ctx, P.f, n, strict))
                    break
        return P

    def sum_filtered(self, a):
        body, _ = self.ctx.body_at(a.at, a.n)
        if not is_sym(body) and body == 1:
            cond, pure = self.ctx.body_at(a.cond, a.n)
            cond = z3.simplify(zb(cond))
            key = ("count", cond.get_id(), zv(a.n).get_id())
            if key in self.ctx.defmemo:
                return self.ctx.defmemo[key]
            from .ctx import _KEEP
            _KEEP.append([cond])
            # counting lemma: cond holds exactly below a pivot -> the count is the pivot
            for p in list(self.ctx.pivots):
                if self.ctx.entails(z3.And(zv(p) >= 0, zv(p) <= zv(a.n))) and self.ctx.entails(
                        Forall(0, a.n, lambda i: zb(a.cond(i)) == (zv(i) < zv(p)))):
                    self.ctx.defmemo[key] = p
                    return p
            n = a.n
            c = self.ctx.define(key, "int", "cnt", lambda c: [c >= 0, c <= zv(n)])
            if pure:
                holds = lambda i: z3.substitute(cond, (z3.Int("J!"), zv(i)))
            else:
                one = self.closed(Arr(n, lambda i: self.I.ite(zb(a.cond(i)), 1, 0)))
                holds = lambda i: zv(one(i)) == 1
            self.ctx.assume(CountLemma(c, holds, n))
            self.ctx.counts = getattr(self.ctx, "counts", {})
            self.ctx.counts[key] = c
            return c
        # filter that selects exactly a prefix or a suffix
        for p in list(self.ctx.pivots):
            if not self.ctx.entails(z3.And(zv(p) >= 0, zv(p) <= zv(a.n))):
                continue
            if self.ctx.entails(Forall(0, a.n, lambda i: zb(a.cond(i)) == (zv(i) < zv(p)))):
                return self.prefix(a.at, a.n)(p)
            if self.ctx.entails(Forall(0, a.n, lambda i: zb(a.cond(i)) == (zv(i) >= zv(p)))):
                P = self.prefix(a.at, a.n)
                return P(a.n) - P(p)
        # sum of a filtered value with a sign: only bounds by the unfiltered sum
        full = Arr(a.n, a.at)
        nn = self.ctx.entails(Forall(0, a.n, lambda i: zr(a.at(i)) >= 0))
        cond = z3.simplify(zb(self.ctx.body_at(a.cond, a.n)[0]))
        key = ("fsum", cond.get_id(), z3.simplify(zr(body)).get_id(), zv(a.n).get_id())
        from .ctx import _KEEP
        _KEEP.append([cond, z3.simplify(zr(body))])
        if key in self.ctx.defmemo:
            return self.ctx.defmemo[key]
        tot = self.sum_arr(full)
        return self.ctx.define(key, "real", "fsum", lambda s: [s >= 0, s <= zr(tot)] if nn else [])

    def argmin(self, a):
        r = self.ctx.int("argmin")
        self.ctx.oblige("argmin of a non-empty array", zv(a.n) >= 1, kind="safe")
        self.ctx.assume(r >= 0)
        self.ctx.assume(r < zv(a.n))
        self.ctx.note_index(r)
        at, n = a.at, a.n
        m = zr(at(r))
        self.ctx.assume(Forall(0, n, lambda i: zr(at(i)) >= m))
        self.ctx.assume(Forall(0, r, lambda i: zr(at(i)) > m))
        return r

    def closed(self, a):
        """element closure that no longer calls back into the interpreter.

        Values the body introduces (quotients, extrema) become functions of the
        index; their defining facts become a quantified fact over the array."""
        if hasattr(a.at, "index_args"):
            return a.at
        ctx = self.ctx
        j = z3.Int("J!")
        mark = ctx.counter
        got = {}

        def go():
            ctx.assume(j >= 0)
            ctx.assume(j < zv(a.n))
            nf, nq = len(ctx.facts), len(ctx.foralls)
            b = a.at(j)
            got["facts"], got["quant"] = list(ctx.facts[nf:]), len(ctx.foralls) > nq
            return b

        b = ctx._with_tmp(go)
        if not is_num(b) or got["quant"]:
            return a.at
        b = zv(b) if is_int(b) else zr(b)
        consts = {}
        seen = set()
        stack = [b] + got["facts"]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                k = nm.rpartition("!")[2]
                if k.isdigit() and int(k) > mark:
                    consts[nm] = x
            elif not z3.is_const(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    k = d.name().rpartition("!")[2]
                    if k.isdigit() and int(k) > mark:
                        return a.at
                stack.extend(x.children())
        subs = []
        for nm, c in consts.items():
            f = z3.Function(ctx.fresh_name(nm.rpartition("!")[0] + "_el"), z3.IntSort(), c.sort())
            subs.append((c, f(j)))
        facts = [z3.substitute(x, *subs) if subs else x for x in got["facts"]]
        body = z3.substitute(b, *subs) if subs else b
        if facts:
            fact = z3.And(*facts)
            ctx.assume(Forall(0, a.n, lambda i: z3.substitute(fact, (j, zv(i)))))
        args = {}
        for x in facts + [body]:
            index_args(x, args, set())
        fn = lambda i: z3.substitute(body, (j, zv(i)))
        fn.index_args = lambda i: [z3.simplify(z3.substitute(x, (j, zv(i)))) for x in args.values()]
        return fn

    def extremum(self, a, op):
        a = self.to_arr(a) if isinstance(a, (list, tuple)) else a
        if isinstance(a.n, int) and a.n <= 8:
            if a.n == 0:
                raise PyRaise("ValueError", "empty")
            r = a.at(0)
            for i in range(1, a.n):
                r = self.ctx.minmax(op, r, a.at(i))
            return r
        self.ctx.oblige(f"{op} of a non-empty array", zv(a.n) >= 1, kind="safe")
        w = self.ctx.int("arg" + op)
        self.ctx.assume(w >= 0)
        self.ctx.assume(w < zv(a.n))
        self.ctx.note_index(w)
        n = a.n
        at = self.closed(a)
        m = self.ctx.real(op)
        self.ctx.assume(m == zr(at(w)))
        for t in getattr(at, "index_args", lambda i: [])(w):
            self.ctx.note_index(t)
        self.ctx.assume(Forall(0, n, lambda i: zr(at(i)) >= m if op == "min" else zr(at(i)) <= m))
        return m

    def take(self, a, idx):
        if idx.arange is not None:
            lo, hi = idx.arange
            self.ctx.oblige("index array in bounds", z3.Implies(zv(lo) < zv(hi), z3.And(zv(lo) >= 0, zv(hi) <= zv(a.n))), kind="safe")
        at, iat = a.at, idx.at
        return self.ctx.register(Arr(idx.n, lambda i: at(iat(i)), tag=self.ctx.alloc_tag("take"), kind=a.kind))

    # ------------------------------------------------------------ calls
    def call(self, b, args, kwargs):
        name = b.name
        if b.fn is not None:
            return b.fn(*args, **kwargs)
        hook = getattr(self.ctx, "builtin_hook", None)
        if hook:
            r = hook(name, args, kwargs)
            if r is not NotImplemented:
                return r
        short = name[3:] if name.startswith("np.") else name
        m = getattr(self, "f_" + short.replace(".", "_"), None)
        if m is None:
            raise Unsupported(f"call of {name}")
        return m(*args, **kwargs)

    def fn1(self, name, x):
        return self.ew(lambda v: self._fn1(name, v), x)

    def _fn1(self, name, v):
        v = self.num(v)
        if name == "exp" and not is_sym(v) and not isinstance(v, Special) and v == 0:
            return Fraction(1)
        if isinstance(v, Special):
            raise Unsupported("function of infinity")
        if not is_num(v):
            raise Unsupported(f"{name} of {v!r}")
        return self.ctx.fn(name, v)

    def f_exp(self, x): return self.fn1("exp", x)
    def f_log(self, x):
        if is_num(x):
            self.ctx.oblige("log argument positive", zr(x) > 0 if is_sym(x) else z3.BoolVal(x > 0), kind="safe")
        return self.fn1("log", x)
    def f_sqrt(self, x): return self.fn1("sqrt", x)
    def f_tanh(self, x): return self.fn1("tanh", x)
    def f_cos(self, x): return self.fn1("cos", x)
    def f_sin(self, x): return self.fn1("sin", x)
    def f_tan(self, x):
        return self.binop(ast.Div(), self.fn1("sin", x), self.fn1("cos", x))
    def f_arctan(self, x): return self.fn1("arctan", x)
    def _domain(self, x):
        if is_num(x):
            self.ctx.oblige("arcsine/arccosine argument in [-1, 1]", z3.And(zr(x) >= -1, zr(x) <= 1), kind="safe")

    def f_asin(self, x):
        self._domain(x)
        return self.fn1("asin", x)

    def f_acos(self, x):
        self._domain(x)
        return self.fn1("acos", x)

    def f_atan2(self, y, x):
        return self.ctx.fn_atan2(self.num(y), self.num(x))
    f_arctan2 = f_atan2

    def f_hypot(self, x, y):
        return self.f_sqrt(self.binop(ast.Add(), self.power(x, 2), self.power(y, 2)))

    f_arcsin, f_arccos = f_asin, f_acos

    def f_radians(self, x):
        return self.ew(lambda v: zr(v) * self.ctx.pi() / 180 if is_sym(v) else (Fraction(0) if v == 0 else zr(v) * self.ctx.pi() / 180), x)
    f_deg2rad = f_radians

    def f_degrees(self, x):
        return self.ew(lambda v: self.ctx.divide(zr(v) * 180, self.ctx.pi()), x)

    def f_power(self, a, b): return self.power(a, b)
    f_pow = f_power

    def f_abs(self, x):
        def ab(v):
            if isinstance(v, Special):
                return NAN if v is NAN else PINF
            if not is_sym(v):
                return abs(v)
            v2 = self.I.name_value(v, "abs")
            return self.ctx.minmax("max", v2, -v2)
        return self.ew(ab, x)
    f_absolute = f_fabs = f_abs

    def f_max(self, *args, axis=None):
        if len(args) == 1:
            return self.extremum(args[0], "max")
        r = args[0]
        for x in args[1:]:
            r = self.mm("max", r, x)
        return r

    def f_min(self, *args, axis=None):
        if len(args) == 1:
            return self.extremum(args[0], "min")
        r = args[0]
        for x in args[1:]:
            r = self.mm("min", r, x)
        return r
    f_nanmax, f_nanmin = f_max, f_min

    def mm(self, op, a, b):
        def f(x, y):
            x, y = self.num(x), self.num(y)
            if isinstance(x, Special) or isinstance(y, Special):
                if x is NAN or y is NAN:
                    return NAN
                lo, hi = (x, y) if self.special_cmp(ast.Lt(), x, y) else (y, x)
                return lo if op == "min" else hi
            if not (is_num(x) and is_num(y)):
                raise Unsupported(f"{op} of {x!r}")
            return self.ctx.minmax(op, x, y)
        return self.ew(f, a, b)

    def f_meshgrid(self, x, y):
        x, y = self.to_arr(x), self.to_arr(y)
        xa, ya = x.at, y.at
        return [Arr2D(y.n, x.n, lambda i, j: xa(j)), Arr2D(y.n, x.n, lambda i, j: ya(i))]

    def f_maximum(self, a, b): return self.mm("max", a, b)
    def f_minimum(self, a, b): return self.mm("min", a, b)
    def f_fmax(self, a, b): return self.mm("max", a, b)
    def f_fmin(self, a, b): return self.mm("min", a, b)

    def f_clip(self, x, lo, hi):
        return self.mm("min", self.mm("max", x, lo), hi)

    def f_sum(self, a, *r): return self.sum_arr(a)
    f_nansum = f_sum

    def f_len(self, a):
        if isinstance(a, (list, tuple, str, dict)):
            return len(a)
        if isinstance(a, (Arr, NodeList)):
            return a.n
        from .interp import FilteredArr
        if isinstance(a, FilteredArr):
            return self.sum_filtered(FilteredArr(a.n, lambda i: 1, a.cond))
        hook = getattr(self.ctx, "opaque_op", None)
        if hook:
            r = hook("len", a)
            if r is not NotImplemented:
                return r
        raise Unsupported("len")

    def f_range(self, *a):
        a = [int(x) if isinstance(x, Fraction) and x.denominator == 1 and False else x for x in a]
        if len(a) == 1:
            return Range(0, a[0])
        return Range(*a)

    def f_arange(self, *a, **k):
        if len(a) == 1:
            lo, hi = 0, a[0]
        else:
            lo, hi = a[0], a[1]
            if len(a) > 2 and a[2] != 1:
                raise Unsupported("arange step")
        if not (is_int(lo) and is_int(hi)):
            raise Unsupported("arange of reals")
        d = self.arith(lambda x, y: y - x, lo, hi)
        if not is_sym(d):
            n = max(0, d)
        else:
            n = self.I.simp_int(d) if self.ctx.entails(d >= 0) else z3.If(d < 0, z3.IntVal(0), d)
        return self.ctx.register(Arr(n, lambda i: self.I.simp_int(zv(i) + zv(lo)), tag=self.ctx.alloc_tag("arange"),
                                     kind="int", arange=(lo, hi)))

    def f_float(self, x):
        x = self.scalar(x)
        if isinstance(x, Special):
            return x
        if isinstance(x, str):
            return lit(float(x))
        x = self.num(x)
        if not is_num(x):
            raise Unsupported(f"float of {x!r}")
        return zr(x) if is_sym(x) else Fraction(x)
    f_float64 = f_float

    def f_int(self, x):
        x = self.num(self.scalar(x))
        if is_int(x):
            return x
        if isinstance(x, Fraction):
            return int(x)
        if is_sym(x):
            if self.ctx.entails(x >= 0):
                return z3.ToInt(x)
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        raise Unsupported("int")

    def f_floor(self, x):
        if isinstance(x, Fraction):
            import math
            return math.floor(x)
        if is_int(x):
            return x
        return z3.ToReal(z3.ToInt(zr(x)))

    def f_round(self, x, n=0):
        if not is_sym(x):
            return round(x, n) if n else round(x)
        raise Unsupported("round")

    def f_str(self, x=""):
        return str(x) if isinstance(x, (int, str)) else Opaque("str")

    def f_bool(self, x): return self.I.as_bool(x)

    def f_list(self, x=()):
        if isinstance(x, (Arr, NodeList)):
            return x
        return list(x) if isinstance(x, (list, tuple, dict, str)) else list(self.iter_view(x))

    def f_tuple(self, x=()): return tuple(x)
    def f_dict(self, *a, **k): return dict(*a, **k)

    def f_set(self, x=()):
        out = []
        for v in x:
            if v not in out:
                out.append(v)
        return out

    def f_sorted(self, x, reverse=False, key=None):
        if isinstance(x, (list, tuple)):
            if len(x) <= 1:
                return list(x)
            if all(not is_sym(v) for v in x):
                return sorted(x, reverse=reverse)
            if key is None and len(x) <= 3 and all(is_num(v) for v in x):
                out = []
                for v in x:      # insertion sort, one path per order
                    k = 0
                    while k < len(out) and self.I.truth(self.compare(ast.GtE(), out[k], v) if reverse else self.compare(ast.LtE(), out[k], v)):
                        k += 1
                    out.insert(k, v)
                return out
        raise Unsupported("sorted")

    def f_reversed(self, x):
        if isinstance(x, (list, tuple)):
            return list(reversed(x))
        if isinstance(x, Range):
            if isinstance(x.lo, int) and isinstance(x.hi, int):
                return list(reversed(range(x.lo, x.hi, x.step)))
            lo, hi = x.lo, x.hi
            return View(0, self.I.simp_int(zv(hi) - zv(lo)), lambda i: self.I.simp_int(zv(hi) - 1 - zv(i)))
        raise Unsupported("reversed")

    def f_enumerate(self, x, start=0):
        v = self.iter_view(x)
        if isinstance(v, list):
            return list(enumerate(v, start))
        lo, hi, el = v
        if not (isinstance(lo, int) and lo == 0 and start == 0):
            raise Unsupported("enumerate")
        return View(lo, hi, lambda i: (i, el(i)))

    def f_zip(self, *xs):
        vs = [self.iter_view(x) for x in xs]
        if all(isinstance(v, list) for v in vs):
            return list(zip(*vs))
        if any(isinstance(v, list) for v in vs):
            raise Unsupported("zip")
        n = vs[0][1]
        for v in vs[1:]:
            if not (isinstance(v[0], int) and v[0] == 0 and self.ctx.entails(zv(v[1]) == zv(n))):
                raise Unsupported("zip of different lengths")
        return View(0, n, lambda i: tuple(v[2](i) for v in vs))

    def f_isinstance(self, v, t):
        hook = getattr(self.ctx, "isinstance_hook", None)
        if hook:
            r = hook(v, t)
            if r is not NotImplemented:
                return r
        if isinstance(t, Builtin):
            if t.name == "np.ndarray":
                return isinstance(v, Arr) and not v.islist
            if t.name == "str":
                return isinstance(v, str)
            if t.name == "float":
                return is_num(v) and not is_int(v)
            if t.name == "int":
                return is_int(v)
            if t.name == "list":
                return isinstance(v, list) or (isinstance(v, Arr) and v.islist)
        raise Unsupported("isinstance")

    def f_any(self, x):
        vs = self.iter_view(x)
        if not isinstance(vs, list):
            b = self.I.as_bool(vs[2](self.ctx.int("any")))
            if b is False or (is_sym(b) and z3.is_false(z3.simplify(zb(b)))):
                return False         # no element can be true
            raise Unsupported("any over a symbolic sequence")
        bs = [self.I.as_bool(v) for v in vs]
        if all(isinstance(b, bool) for b in bs):
            return any(bs)
        return z3.Or(*[zb(b) for b in bs])

    def f_all(self, x):
        if not isinstance(x, (list, tuple, Arr)):
            return self.I.as_bool(x)
        vs = self.iter_view(x)
        if not isinstance(vs, list):
            raise Unsupported("all over a symbolic sequence")
        bs = [self.I.as_bool(v) for v in vs]
        if all(isinstance(b, bool) for b in bs):
            return all(bs)
        return z3.And(*[zb(b) for b in bs])

    def f_isnan(self, x):
        return self.ew(lambda v: v is NAN, x)

    def f_isfinite(self, x):
        return self.ew(lambda v: not isinstance(v, Special), x)

    def f_isclose(self, a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8)):
        def f(x, y):
            d = self.f_abs(self.binop(ast.Sub(), x, y))
            return self.compare(ast.LtE(), d, self.binop(ast.Add(), atol, self.binop(ast.Mult(), rtol, self.f_abs(y))))
        return self.ew(f, a, b)

    def f_array(self, x, *a, **k):
        if isinstance(x, Nones):
            return x
        if isinstance(x, Opaque):
            return x
        if isinstance(x, Arr):
            return self.copy_arr(x)
        if is_num(x):
            return x
        return self.to_arr(x)

    def f_asarray(self, x, *a, **k):
        if isinstance(x, Arr):
            if not x.islist:
                return x
            return self.copy_arr(x)
        if is_num(x):
            return x
        return self.to_arr(x)
    f_copy = f_array

    def f_empty_like(self, x, *a, **k):
        g = self.ctx.func("empty")
        return self.ctx.register(Arr(x.n, g, tag=self.ctx.alloc_tag("empty")))

    def f_zeros_like(self, x, *a, **k): return self.fill(x.n, 0)
    def f_ones_like(self, x, *a, **k): return self.fill(x.n, 1)
    def f_full_like(self, x, v, *a, **k): return self.fill(x.n, v)

    def fill(self, n, v):
        if isinstance(n, tuple):
            if len(n) != 1:
                raise Unsupported("nd array")
            n = n[0]
        if isinstance(n, list):
            n = n[0]
        if isinstance(v, int) and not isinstance(v, bool):
            v = Fraction(v)
        if isinstance(v, z3.ArithRef):
            v = zr(v)
        return self.ctx.register(Arr(n, lambda i: v, tag=self.ctx.alloc_tag("fill")))

    def f_zeros(self, n, *a, **k): return self.fill(n, 0)
    def f_ones(self, n, *a, **k): return self.fill(n, 1)
    def f_full(self, n, v, *a, **k): return self.fill(n, v)

    def f_append(self, a, b):
        a = self.to_arr([a]) if is_num(a) else self.to_arr(a)
        b = self.to_arr([b]) if is_num(b) else self.to_arr(b)
        na, aat, bat = a.n, a.at, b.at

        def at(i):
            if isinstance(i, int) and isinstance(na, int):
                return aat(i) if i < na else bat(i - na)
            c = zv(i) < zv(na)
            # avoid evaluating the wrong side at a concrete out-of-range index
            sc = z3.simplify(c)
            j = self.I.simp_int(zv(i) - zv(na))
            if z3.is_true(sc):
                return aat(i)
            if z3.is_false(sc):
                return bat(j)
            if isinstance(na, int) and na == 1:
                return self.I.ite(c, aat(0), bat(j))
            return self.I.ite(c, aat(i), bat(j))

        n = self.arith(lambda x, y: x + y, na, b.n)
        n = self.I.simp_int(n) if is_sym(n) else n
        return self.ctx.register(Arr(n, at, tag=self.ctx.alloc_tag("append")))

    def f_concatenate(self, xs, *a):
        r = xs[0]
        for x in xs[1:]:
            r = self.f_append(r, x)
        return r

    def f_diff(self, a):
        at = a.at
        n = self.arith(lambda x, y: x - y, a.n, 1)
        n = self.I.simp_int(n) if is_sym(n) else n
        self.ctx.oblige("diff of a non-empty array", zv(a.n) >= 1, kind="safe")
        return self.ctx.register(Arr(n, lambda i: self.binop(ast.Sub(), at(self.I.add1(i)), at(i)), tag=self.ctx.alloc_tag("diff")))

    def f_cumsum(self, a):
        a = self.to_arr(a)
        if isinstance(a.n, int) and a.n <= 6:
            out, r = [], 0
            for i in range(a.n):
                r = self.binop(ast.Add(), r, a.at(i))
                out.append(r)
            return self.to_arr(out) if out else a
        P = self.prefix(a.at, a.n)
        return self.ctx.register(Arr(a.n, lambda i: P(self.I.add1(i)), tag=self.ctx.alloc_tag("cumsum")))

    def f_add(self, a, b): return self.binop(ast.Add(), a, b)
    def f_subtract(self, a, b): return self.binop(ast.Sub(), a, b)
    def f_multiply(self, a, b): return self.binop(ast.Mult(), a, b)
    def f_divide(self, a, b): return self.binop(ast.Div(), a, b)
    def f_less_equal(self, a, b): return self.compare(ast.LtE(), a, b)
    def f_square(self, a): return self.power(a, 2)

    def f_where(self, c, a, b):
        return self.ew(lambda x, y, z: self.I.ite(zb(x) if is_sym(x) else x, y, z), c, a, b)

    def f_logical_and(self, a, b): return self.binop(ast.BitAnd(), a, b)
    def f_logical_or(self, a, b): return self.binop(ast.BitOr(), a, b)

    def f_mean(self, a): return self.binop(ast.Div(), self.sum_arr(a), a.n if isinstance(a, Arr) else len(a))

    def f_argmin(self, a): return self.argmin(a)

    def f_print(self, *a, **k): return None

    def f_numba_typed_List_empty_list(self, *a):
        fs = {k: self.ctx.func("e" + k[:2]) for k in NodeList.FIELDS}
        l = NodeList(self.ctx, 0, fs, {k: z3.RealVal(0) for k in self.ctx.functionals}, tag=self.ctx.alloc_tag("list"))
        return self.ctx.register(l)

    def f_numba_typed_List(self, *a):
        return self.f_numba_typed_List_empty_list()

    def f_hasattr(self, o, n):
        try:
            self.I.getattr(o, n)
            return True
        except PyRaise:
            return False

    def f_setattr(self, o, n, v):
        if not isinstance(n, str):
            if hasattr(o, "set_named"):
                return o.set_named(n, v)
            raise Unsupported("setattr with a computed name")
        self.I.setattr(o, n, v)

    def f_getattr(self, o, n, *d):
        try:
            return self.I.getattr(o, n)
        except PyRaise:
            if d:
                return d[0]
            raise


class PrefixMono:
    pair_all = True

    def __init__(self, ctx, f, n, strict):
        self.ctx, self.f, self.n, self.strict = ctx, f, n, strict

    def inst(self, i):
        i, n, f = zv(i), zv(self.n), self.f
        rng = z3.And(i >= 0, i <= n)
        c = [z3.Implies(rng, z3.And(f(i) >= 0, f(i) <= f(n)))]
        if self.strict:
            c.append(z3.Implies(z3.And(i >= 1, i <= n), f(i) > 0))
            c.append(z3.Implies(z3.And(i >= 0, i < n), f(i) < f(n)))
        return z3.And(*c)

    def inst2(self, i, j):
        i, j, n, f = zv(i), zv(j), zv(self.n), self.f
        if self.strict:
            return z3.And(z3.Implies(z3.And(i >= 0, i < j, j <= n), f(i) < f(j)),
                          z3.Implies(z3.And(i >= 0, i < j, j < n), f(i + 1) < f(j + 1)))
        return z3.Implies(z3.And(i >= 0, i <= j, j <= n), f(i) <= f(j))


class CountLemma:
    """c = #{0<=i<n : cond(i)}; cond(i) for some i in range implies c >= 1; all imply c == n (per index: one-sided)."""

    def __init__(self, c, cond, n):
        self.c, self.cond, self.n = c, cond, n

    def inst(self, i):
        i, n = zv(i), zv(self.n)
        b = zb(self.cond(i))
        rng = z3.And(i >= 0, i < n)
        return z3.And(z3.Implies(z3.And(rng, b), self.c >= 1), z3.Implies(z3.And(rng, z3.Not(b)), self.c < n))

    def inst2(self, i, j):
        i, j, n = zv(i), zv(j), zv(self.n)
        b, d = zb(self.cond(i)), zb(self.cond(j))
        rng = z3.And(i >= 0, i < j, j < n)
        return z3.And(z3.Implies(z3.And(rng, b, d), self.c >= 2),
                      z3.Implies(z3.And(rng, z3.Not(b), z3.Not(d)), self.c <= n - 2))
