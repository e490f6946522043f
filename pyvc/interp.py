"""Direct-style symbolic interpreter for the real source in /repo.

The Python text is parsed on every run (ast) and executed symbolically; nothing
is transcribed by hand.  Dropped by the translation: decorators (@njit,
@jitclass), type annotations, docstrings, print / warnings calls, and the
dtype-level behaviour of NumPy (numbers are mathematical).
"""
import ast
import os
from fractions import Fraction

import z3

from .values import *
from .ctx import Ctx

REPO = os.environ.get("PYVC_REPO", "/repo")


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Module:
    def __init__(self, interp, name, path):
        self.interp = interp
        self.name = name
        self.path = path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self._scan(self.tree.body)
        self.cache = {}

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.defs[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for nm in ast.walk(t):
                        if isinstance(nm, ast.Name):
                            self.defs[nm.id] = s
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.defs[s.target.id] = s
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    self.defs[(a.asname or a.name).split(".")[0]] = (s, a)
            elif isinstance(s, ast.If):
                self._scan(s.body)
                self._scan(s.orelse)
            elif isinstance(s, ast.Try):
                self._scan(s.body)


class Frame:
    def __init__(self, mod, func, env):
        self.mod, self.func, self.env = mod, func, env


def assigned_names(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    # comprehension variables are local to the comprehension
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.comprehension):
                for y in ast.walk(x.target):
                    if isinstance(y, ast.Name):
                        out.discard(y.id)
    return out


class Interp:
    def __init__(self, ctx: Ctx):
        self.ctx = ctx
        ctx.interp = self
        self.modules = {}
        from . import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name not in self.modules:
            if name == "COSIPY":
                path = os.path.join(REPO, "COSIPY.py")
            else:
                path = os.path.join(REPO, name.replace(".", "/") + ".py")
            if not os.path.exists(path):
                raise Unsupported(f"no module {name}")
            self.modules[name] = Module(self, name, path)
        return self.modules[name]

    def lookup_global(self, mod, name):
        ov = getattr(self.ctx, "globals_override", {})
        if (mod.name, name) in ov:
            return ov[(mod.name, name)]
        if name in mod.defs:
            d = mod.defs[name]
            if isinstance(d, ast.FunctionDef):
                return Func(mod, d)
            if isinstance(d, ast.ClassDef):
                if (mod.name, name) not in mod.cache:
                    mod.cache[(mod.name, name)] = Cls(mod, d)
                return mod.cache[(mod.name, name)]
            if isinstance(d, tuple):
                return self.import_value(*d)
            if isinstance(d, (ast.Assign, ast.AnnAssign)):
                fr = Frame(mod, None, {})
                val = self.eval(d.value, fr)
                if isinstance(d, ast.AnnAssign):
                    return val
                for t in d.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        return val
                    if isinstance(t, ast.Tuple):
                        vals = self.unpack(val, len(t.elts))
                        for e, v in zip(t.elts, vals):
                            if isinstance(e, ast.Name) and e.id == name:
                                return v
                raise Unsupported(f"module name {name}")
        b = self.lib.builtin(name)
        if b is not None:
            return b
        raise PyRaise("NameError", name)

    def import_value(self, s, a):
        if isinstance(s, ast.Import):
            return ModuleVal(a.name if a.asname else a.name.split(".")[0])
        modname = s.module
        if modname == "cosipy.constants" and a.name == "Constants":
            return Opaque("Constants")
        if modname == "cosipy.config" and a.name == "Config":
            return Opaque("Config")
        if modname and modname.startswith("cosipy"):
            try:
                m = self.module(modname)
                return self.lookup_global(m, a.name)
            except Unsupported:
                return ModuleVal(f"{modname}.{a.name}")
        return self.lib.from_import(modname, a.name)

    def get_function(self, modname, qual):
        m = self.module(modname)
        if "." in qual:
            c, f = qual.split(".")
            cls = self.lookup_global(m, c)
            if f not in cls.methods:
                raise Unsupported(f"{qual} not found")
            return Func(m, cls.methods[f], c)
        v = self.lookup_global(m, qual)
        return v

    # ------------------------------------------------------------ calls
    def class_of(self, name):
        if name in ("Grid",):
            return self.lookup_global(self.module("cosipy.cpkernel.grid"), "Grid")
        if name in ("Node",):
            return self.lookup_global(self.module("cosipy.cpkernel.node"), "Node")
        if name == "IOClass":
            return self.lookup_global(self.module("cosipy.cpkernel.io"), "IOClass")
        home = getattr(self.ctx, "class_home", {})
        if name in home:
            return self.lookup_global(self.module(home[name]), name)
        raise Unsupported(f"class {name}")

    def base_with(self, cls, name):
        """the base class that defines name"""
        for b in cls.node.bases:
            if isinstance(b, ast.Name) and b.id != "object":
                c = self.lookup_global(cls.mod, b.id)
                if isinstance(c, Cls):
                    if name in c.methods or name in c.props:
                        return c
                    c = self.base_with(c, name)
                    if c is not None:
                        return c
        return None

    def find_method(self, clsname, name):
        cls = self.class_of(clsname)
        if name in cls.methods:
            return Func(cls.mod, cls.methods[name], clsname)
        return None

    def call(self, fv, args, kwargs, node=None):
        if isinstance(fv, BoundMethod):
            return self.call(fv.func, [fv.self_] + list(args), kwargs, node)
        if isinstance(fv, Func):
            key = fv.qualname
            c = self.ctx.contracts.get(key)
            if c is not None and not (self.ctx.callstack and getattr(self.ctx, "target", None) == key and False):
                if not (key == getattr(self.ctx, "target", None) and not self.ctx.callstack):
                    r = c(self, args, kwargs)
                    if r is not NotImplemented:
                        return r
            return self.call_inline(fv, args, kwargs)
        if isinstance(fv, Cls):
            return self.instantiate(fv, args, kwargs)
        if isinstance(fv, Builtin):
            return self.lib.call(fv, args, kwargs)
        if isinstance(fv, Opaque) and fv.name in self.ctx.contracts:
            return self.ctx.contracts[fv.name](self, args, kwargs)
        if callable(fv):
            return fv(*args, **kwargs)
        raise Unsupported(f"call of {fv!r}")

    def bind(self, fv, args, kwargs):
        a = fv.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(params) and not a.vararg:
            raise PyRaise("TypeError", f"too many arguments for {fv.qualname}")
        for p, v in zip(params, args):
            env[p] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(params):])
        extra = {}
        for k, v in kwargs.items():
            if k in env:
                raise PyRaise("TypeError", f"multiple values for {k}")
            if k in params or k in [p.arg for p in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise("TypeError", f"unexpected argument {k}")
        if a.kwarg:
            env[a.kwarg.arg] = extra
        fr = Frame(fv.mod, fv, {})
        nd = len(a.defaults)
        for p, d in zip(params[len(params) - nd:], a.defaults):
            if p not in env:
                env[p] = self.eval(d, fr)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.eval(d, fr)
        for p in params:
            if p not in env:
                raise PyRaise("TypeError", f"missing argument {p}")
        return env

    def call_inline(self, fv, args, kwargs):
        if len(self.ctx.callstack) > 40:
            raise Unsupported("recursion depth")
        env = self.bind(fv, args, kwargs)
        if fv.closure is not None:
            e2 = dict(fv.closure)
            e2.update(env)
            env = e2
        fr = Frame(fv.mod, fv, env)
        self.ctx.functions_used.add(f"{fv.mod.name}:{fv.qualname}")
        if isinstance(fv.node, ast.Lambda):
            return self.eval(fv.node.body, fr)
        self.ctx.callstack.append(fv.qualname)
        try:
            self.exec_block(fv.node.body, fr)
            r = None
        except ReturnEx as e:
            r = e.value
        finally:
            self.ctx.callstack.pop()
        return r

    def instantiate(self, cls, args, kwargs):
        o = Obj(cls.name, tag=self.ctx.alloc_tag(cls.name))
        self.ctx.register(o)
        init = cls.methods.get("__init__")
        if init is not None:
            self.call_inline(Func(cls.mod, init, cls.name), [o] + list(args), kwargs)
        return o

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {s.lineno}")
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Call):
            f = s.value.func
            if isinstance(f, ast.Name) and f.id == "print":
                return
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("warnings", "logging", "logger"):
                return
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            fr.env[(a.asname or a.name).split(".")[0]] = self.import_value(s, a)

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name] = self.import_value(s, a)

    def s_Global(self, s, fr):
        raise Unsupported("global statement")

    def s_FunctionDef(self, s, fr):
        fr.env[s.name] = Func(fr.mod, s, None, fr.env)

    def s_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise PyRaise("AssertionError")

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise("reraise")
        e = s.exc
        name = "Exception"
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        raise PyRaise(name)

    def s_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    names = []
                    if h.type is None:
                        names = None
                    elif isinstance(h.type, ast.Name):
                        names = [h.type.id]
                    elif isinstance(h.type, ast.Tuple):
                        names = [getattr(x, "id", "?") for x in h.type.elts]
                    if names is None or e.kind in names or "Exception" in names:
                        if h.name:
                            fr.env[h.name] = Opaque("exc")
                        self.exec_block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, fr)

    def s_With(self, s, fr):
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            if isinstance(v, Ext):
                v = v.get(self, "__enter__")()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.exec_block(s.body, fr)

    def s_If(self, s, fr):
        if getattr(self.ctx, "merge_ifs", False) and self.merge_if(s, fr):
            return
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def merge_if(self, s, fr):
        """a conditional that only assigns numbers to names: one path, conditional values"""
        def simple(body):
            return all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and
                       not any(isinstance(y, ast.Call) and not (isinstance(y.func, ast.Name) and y.func.id in ("min", "max", "abs", "float"))
                               for y in ast.walk(x.value)) for x in body)
        if not (simple(s.body) and simple(s.orelse)):
            return False
        names = assigned_names(s.body) | assigned_names(s.orelse)
        if not all(isinstance(fr.env.get(n, 0), (int, Fraction, z3.ArithRef)) for n in names):
            return False
        c = self.as_bool(self.eval(s.test, fr))
        if isinstance(c, bool):
            self.exec_block(s.body if c else s.orelse, fr)
            return True
        env0, out = dict(fr.env), []
        for body in (s.body, s.orelse):
            fr.env = dict(env0)
            for x in body:
                fr.env[x.targets[0].id] = self.eval(x.value, fr)
            out.append(fr.env)
        fr.env = env0
        for n in names:
            a, b = out[0].get(n), out[1].get(n)
            if not (is_num(a) and is_num(b)):
                self.exec_block(s.body if self.truth(c) else s.orelse, fr)
                return True
            env0[n] = self.name_value(self.ite(c, zr(a), zr(b)), n)
        return True

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        load = ast.copy_location(self._as_load(t), t)
        cur = self.eval(load, fr)
        val = self.eval(s.value, fr)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            if isinstance(val, (list, tuple)):
                cur.extend(val)
                return
        r = self.binop(s.op, cur, val)
        if isinstance(cur, Arr) and isinstance(r, Arr) and isinstance(t, ast.Name) and not cur.islist:
            # numpy in-place update
            self.arr_replace(cur, r)
            return
        self.assign(t, r, fr)

    def _as_load(self, t):
        import copy
        t2 = copy.deepcopy(t)
        for x in ast.walk(t2):
            if hasattr(x, "ctx"):
                x.ctx = ast.Load()
        return t2

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                i = self.eval(t.slice, fr)
                if isinstance(o, NodeList):
                    self.nl_delete(o, i)
                    continue
                if isinstance(o, (list, dict)) and isinstance(i, (int, str)):
                    del o[i]
                    continue
            elif isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
                continue
            raise Unsupported("del")

    # ------------------------------------------------------------ assignment
    def unpack(self, v, n):
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise PyRaise("ValueError", "unpack")
            return list(v)
        if isinstance(v, Arr):
            if not isinstance(v.n, int):
                raise Unsupported("unpack of symbolic length")
            if v.n != n:
                raise PyRaise("ValueError", "unpack")
            return [v.at(i) for i in range(n)]
        if isinstance(v, Ext):
            v = v.items(self)
            if isinstance(v, (list, tuple)):
                if len(v) != n:
                    raise PyRaise("ValueError", "unpack")
                return list(v)
        if isinstance(v, Opaque) and v.items is not None:
            if len(v.items) != n:
                raise PyRaise("ValueError", "unpack")
            return list(v.items)
        raise Unsupported(f"unpack of {v!r}")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                seq = list(v) if isinstance(v, (tuple, list)) else None
                if seq is None:
                    raise Unsupported("starred unpack")
                k = star[0]
                after = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], seq[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, seq[k:len(seq) - after], fr)
                for e, x in zip(t.elts[k + 1:], seq[len(seq) - after:]):
                    self.assign(e, x, fr)
                return
            for e, x in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            self.setitem(o, i, v)
        else:
            raise Unsupported("assignment target")

    def note_write(self, obj, field):
        for lw in self.ctx.loopstack:
            lw.note(obj, field)

    def note_write_list(self, lst):
        for lw in self.ctx.loopstack:
            lw.note_list(lst)

    def setattr(self, o, name, v):
        if isinstance(o, NodeRef):
            o.check()
            self.nl_store(o.lst, o.idx, name, v)
            return
        if isinstance(o, Obj):
            try:
                cls = self.class_of(o.cls)
            except Unsupported:
                cls = None
            if cls is not None and name in cls.setters:
                self.call_inline(Func(cls.mod, cls.setters[name], o.cls), [o, v], {})
                return
            self.note_write(o, name)
            o.attrs[name] = v
            return
        if isinstance(o, Ext):
            o.set(self, name, v)
            return
        if isinstance(o, Opaque):
            hook = getattr(self.ctx, "opaque_setattr", None)
            if hook and hook(o, name, v):
                return
            if name in ("values",) or True:
                raise Unsupported(f"setattr on {o!r}.{name}")
        raise Unsupported(f"setattr on {o!r}")

    def setitem(self, o, i, v):
        if isinstance(o, Ext) or hasattr(o, "ext_setitem"):
            (o.setitem if isinstance(o, Ext) else o.ext_setitem)(self, i, v)
            return
        if isinstance(o, Arr):
            self.arr_store(o, i, v)
            return
        if isinstance(o, (list, dict)) and not is_sym(i) and not isinstance(i, slice):
            try:
                o[i] = v
            except IndexError:
                raise PyRaise("IndexError")
            return
        hook = getattr(self.ctx, "opaque_setitem", None)
        if hook and hook(o, i, v):
            return
        raise Unsupported(f"setitem on {o!r}")

    # ------------------------------------------------------------ node lists
    def idx_eq(self, i, j):
        if isinstance(i, int) and isinstance(j, int):
            return i == j
        d = z3.simplify(zv(i) - zv(j))
        if z3.is_int_value(d):
            return d.as_long() == 0
        return zv(i) == zv(j)

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return a
        if z3.is_false(cs):
            return b
        if a is b:
            return a
        if is_num(a) and is_num(b):
            if not is_sym(a) and not is_sym(b) and a == b:
                return a
            if is_int(a) and is_int(b):
                return z3.If(c, zv(a), zv(b))
            return z3.If(c, zr(a), zr(b))
        if is_boolish(a) and is_boolish(b):
            return z3.If(c, zb(a), zb(b))
        if isinstance(a, (str, type(None), bool)) and a == b:
            return a
        raise Unsupported(f"merge of {a!r} and {b!r}")

    def norm_index(self, i, n, what="index"):
        """Python index semantics with a bounds obligation."""
        if isinstance(i, z3.ArithRef) and not i.is_int():
            raise Unsupported("non-integer index")
        if isinstance(i, Fraction):
            raise PyRaise("TypeError", "index")
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int) and isinstance(n, int):
            if not (-n <= i < n):
                self.ctx.oblige(f"{what} in bounds", z3.BoolVal(False), kind="safe")
                raise PyRaise("IndexError")
            return i if i >= 0 else i + n
        if isinstance(i, int):
            if i < 0:
                self.ctx.oblige(f"{what} in bounds", zv(n) >= -i, kind="safe")
                return z3.simplify(zv(n) + i)
            self.ctx.oblige(f"{what} in bounds", zv(n) > i, kind="safe")
            return i
        if self.ctx.entails(zv(i) >= 0):
            self.ctx.oblige(f"{what} in bounds", zv(i) < zv(n), kind="safe")
            return i
        self.ctx.oblige(f"{what} in bounds", z3.And(zv(i) >= -zv(n), zv(i) < zv(n)), kind="safe")
        # resolve the wrap-around by a case split
        if self.ctx.branch(zv(i) >= 0):
            return i
        return z3.simplify(zv(i) + zv(n))

    def name_value(self, v, base="v"):
        """Give a compound term a name (sharing)."""
        if isinstance(v, z3.ArithRef) and v.num_args() > 0 and v.decl().kind() != z3.Z3_OP_UNINTERPRETED and not z3.is_rational_value(v) and not z3.is_int_value(v):
            x = self.ctx.int(base) if v.is_int() else self.ctx.real(base)
            self.ctx.assume(x == v)
            return x
        return v

    def nl_store(self, lst, idx, name, v):
        if name not in lst.f:
            raise Unsupported(f"node field {name}")
        if isinstance(v, Arr):
            v = self.lib.scalar(v)
        if not is_num(v):
            raise Unsupported(f"node field value {v!r}")
        if self.ctx._merge_depth:
            raise Unsupported("side effect in a merged expression")
        self.note_write(lst, name)
        v = self.name_value(zr(v), name[:2])
        rec = lst.rec(idx)
        new = dict(rec)
        new[name] = v
        self.update_tot(lst, [(-1, rec), (1, new)], {name})
        old = lst.f[name]
        lst.f[name] = self.ctx.memo_at(lambda i, old=old, idx=idx, v=v: self.ite_any(self.idx_eq(i, idx), v, old, i))

    def update_tot(self, lst, deltas, changed=None):
        for fname, F in self.ctx.functionals.items():
            if changed is not None and not (F.deps & changed):
                continue
            t = lst.tot[fname]
            for sgn, rec in deltas:
                val = F.fn(rec)
                t = t + zr(val) if sgn > 0 else t - zr(val)
            lst.tot[fname] = t

    def node_rec(self, node):
        if isinstance(node, NodeRef):
            node.check()
            return node.lst.rec(node.idx)
        if isinstance(node, Obj):
            rec = {}
            for k in NodeList.FIELDS:
                v = node.attrs.get(k)
                if isinstance(v, Arr):
                    v = self.lib.scalar(v)
                if not is_num(v):
                    raise Unsupported(f"node field {k}={v!r}")
                rec[k] = self.name_value(zr(v), k[:2])
            return rec
        raise Unsupported("not a node")

    def nl_insert(self, lst, pos, node):
        if self.ctx._merge_depth:
            raise Unsupported("side effect in a merged expression")
        rec = self.node_rec(node)
        n = lst.n
        if isinstance(pos, int) and pos < 0:
            raise Unsupported("insert at negative index")
        self.ctx.oblige("insert position valid", z3.And(zv(pos) >= 0, zv(pos) <= zv(n)), kind="safe")
        self.ctx.note_index(pos)
        self.note_write(lst, "#struct")
        for k in NodeList.FIELDS:
            old, v = lst.f[k], rec[k]

            def at(i, old=old, v=v, pos=pos):
                e = self.idx_eq(i, pos)
                if e is True:
                    return v
                lt = zv(i) < zv(pos)
                ls = z3.simplify(lt)
                if z3.is_true(ls):
                    return old(i)
                if e is False and z3.is_false(ls):
                    return old(self.sub1(i))
                return self.ite(e, v, self.ite(lt, old(i), old(self.sub1(i))))

            lst.f[k] = self.ctx.memo_at(at)
        self.update_tot(lst, [(1, rec)])
        lst.n = self.simp_int(zv(n) + 1) if is_sym(n) else n + 1
        lst.structver += 1
        self.register_shift(-1)

    def sub1(self, i):
        return i - 1 if isinstance(i, int) else z3.simplify(i - 1)

    def add1(self, i):
        return i + 1 if isinstance(i, int) else z3.simplify(i + 1)

    def simp_int(self, t):
        t = z3.simplify(t)
        return t.as_long() if z3.is_int_value(t) else t

    def register_shift(self, d):
        pass

    def nl_delete(self, lst, idx):
        if self.ctx._merge_depth:
            raise Unsupported("side effect in a merged expression")
        idx = self.norm_index(idx, lst.n, "delete index")
        self.note_write(lst, "#struct")
        rec = lst.rec(idx)
        self.update_tot(lst, [(-1, rec)])
        for k in NodeList.FIELDS:
            old = lst.f[k]

            def at(i, old=old, idx=idx):
                lt = zv(i) < zv(idx)
                return self.ite(lt, old(i), old(self.add1(i)))

            lst.f[k] = self.ctx.memo_at(at)
        lst.n = self.simp_int(zv(lst.n) - 1) if is_sym(lst.n) else lst.n - 1
        lst.structver += 1

    # ------------------------------------------------------------ arrays
    def arr_replace(self, a, b):
        if self.ctx._merge_depth:
            raise Unsupported("side effect in a merged expression")
        self.note_write(a, "#content")
        a.at = b.at

    def arr_store(self, a, i, v):
        if self.ctx._merge_depth:
            raise Unsupported("side effect in a merged expression")
        self.note_write(a, "#content")
        old = a.at
        if isinstance(i, slice):
            lo, hi = self.slice_bounds(i, a.n)
            if isinstance(v, Arr):
                self.ctx.oblige("shape match", zv(v.n) == zv(hi) - zv(lo), kind="safe")
                vat = v.at
                a.at = self.ctx.memo_at(lambda j: self.ite(z3.And(zv(lo) <= zv(j), zv(j) < zv(hi)), vat(self.simp_int(zv(j) - zv(lo))), old(j)))
            elif is_num(v) or is_boolish(v) or isinstance(v, Special):
                a.at = self.ctx.memo_at(lambda j: self.ite(z3.And(zv(lo) <= zv(j), zv(j) < zv(hi)), v, old(j)))
            else:
                raise Unsupported("slice store")
            return
        if isinstance(i, Arr) and i.arange is None and not isinstance(v, Arr) and self.is_mask(i):
            self.ctx.oblige("mask has the shape of the array", zv(i.n) == zv(a.n), kind="safe")
            mat = i.at
            a.at = self.ctx.memo_at(lambda j: self.ite_any(mat(j), v, old, j))
            return
        if isinstance(i, Arr):
            if i.arange is None:
                raise Unsupported("fancy store")
            lo, hi = i.arange
            self.ctx.oblige("index array in bounds", z3.Implies(zv(lo) < zv(hi), z3.And(zv(lo) >= 0, zv(hi) <= zv(a.n))), kind="safe")
            if isinstance(v, Arr):
                vat = v.at
                self.ctx.oblige("shape match", zv(v.n) == zv(i.n), kind="safe")
            else:
                vat = lambda _: v
            a.at = self.ctx.memo_at(lambda j: self.ite(z3.And(zv(lo) <= zv(j), zv(j) < zv(hi)), vat(self.simp_int(zv(j) - zv(lo))), old(j)))
            return
        i = self.norm_index(i, a.n, "store index")
        self.ctx.note_index(i)
        if isinstance(v, Arr):
            v = self.lib.scalar(v)
        if isinstance(v, z3.ArithRef):
            v = self.name_value(v)
        a.at = self.ctx.memo_at(lambda j, i=i, v=v: self.ite_any(self.idx_eq(j, i), v, old, j))

    def is_mask(self, i):
        return is_boolish(i.at(0))

    def ite_any(self, c, v, old, j):
        if c is True:
            return v
        if c is False:
            return old(j)
        return self.ite(c, v, old(j))

    def slice_bounds(self, s, n):
        lo, hi, step = s.start, s.stop, s.step
        if step not in (None, 1):
            raise Unsupported("slice step")

        def norm(x, default):
            if x is None:
                return default
            if isinstance(x, int):
                if x >= 0:
                    if isinstance(n, int):
                        return min(x, n)
                    if self.ctx.entails(zv(n) >= x):
                        return x
                    return z3.If(zv(n) < x, zv(n), z3.IntVal(x))
                if isinstance(n, int):
                    return max(0, n + x)
                if self.ctx.entails(zv(n) >= -x):
                    return z3.simplify(zv(n) + x)
                return z3.If(zv(n) + x < 0, z3.IntVal(0), zv(n) + x)
            if not (isinstance(x, z3.ArithRef) and x.is_int()):
                raise Unsupported("slice bound")
            if self.ctx.entails(z3.And(x >= 0, x <= zv(n))):
                return x
            y = z3.If(x < 0, z3.If(x + zv(n) < 0, z3.IntVal(0), x + zv(n)), z3.If(x > zv(n), zv(n), x))
            return y

        lo, hi = norm(lo, 0), norm(hi, n)
        return lo, hi

    def arr_slice(self, a, s):
        lo, hi = self.slice_bounds(s, a.n)
        if isinstance(lo, int) and isinstance(hi, int):
            n = max(0, hi - lo)
        else:
            d = zv(hi) - zv(lo)
            if self.ctx.entails(d >= 0):
                n = self.simp_int(d)
            else:
                n = z3.If(d < 0, z3.IntVal(0), d)
        at = a.at
        r = Arr(n, lambda i: at(self.simp_int(zv(i) + zv(lo))), tag=self.ctx.alloc_tag("slice"), kind=a.kind)
        if a.arange is not None:
            base = a.arange[0]
            r.arange = (self.simp_int(zv(base) + zv(lo)), self.simp_int(zv(base) + zv(lo) + zv(n)))
        r.part = (a, lo, hi, getattr(a, "at"))
        self.ctx.register(r)
        return r

    # ------------------------------------------------------------ loops
    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        seq = self.lib.iter_view(it)
        if isinstance(seq, list):
            brk = False
            for v in seq:
                self.assign(s.target, v, fr)
                try:
                    self.exec_block(s.body, fr)
                except BreakEx:
                    brk = True
                    break
                except ContinueEx:
                    continue
            if not brk:
                self.exec_block(s.orelse, fr)
            return
        lo, hi, elem = seq
        self.sym_loop(s, fr, (lo, hi, elem))

    def s_While(self, s, fr):
        # concrete loop conditions are unrolled
        first = None
        n = 0
        while True:
            save = (self.ctx.decisions[:], self.ctx.pos)
            if not self.is_concrete_cond(s, fr):
                break
            c = self.eval(s.test, fr)
            if not self.truth(c):
                self.exec_block(s.orelse, fr)
                return
            n += 1
            if n > 200:
                raise Unsupported("while unrolling")
            try:
                self.exec_block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.sym_loop(s, fr, None)

    def is_concrete_cond(self, s, fr):
        """True when every variable in the loop test is concrete (and unrolling is bounded)."""
        for x in ast.walk(s.test):
            if isinstance(x, ast.Call):
                return False
            if isinstance(x, ast.Attribute):
                return False
            if isinstance(x, ast.Name):
                v = fr.env.get(x.id)
                if x.id not in fr.env:
                    return False
                if is_sym(v) or isinstance(v, (Arr, NodeList, Obj)):
                    return False
        # a flag that the body sets symbolically (while optim) must not be unrolled forever
        return getattr(self.ctx, "unroll_flags", True)

    def sym_loop(self, s, fr, counted):
        from .loops import symbolic_loop
        symbolic_loop(self, s, fr, counted)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        b = self.as_bool(v)
        return self.ctx.branch(b)

    def as_bool(self, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, (str, list, tuple, dict)):
            return len(v) > 0
        if isinstance(v, NodeList):
            return zv(v.n) > 0 if is_sym(v.n) else v.n > 0
        if isinstance(v, Arr):
            if v.islist:
                return zv(v.n) > 0 if is_sym(v.n) else v.n > 0
            if v.n == 1:
                return self.as_bool(v.at(0))
            raise Unsupported("truth of array")
        if isinstance(v, Special):
            return True
        if isinstance(v, (Obj, NodeRef, Func, Cls)):
            return True
        if isinstance(v, Ext):
            return v.truth(self)
        raise Unsupported(f"truth of {v!r}")

    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} line {getattr(e, 'lineno', '?')}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return lit(e.value)

    def e_Name(self, e, fr):
        if e.id in fr.env:
            v = fr.env[e.id]
            if type(v).__name__ == "Poison":
                raise Unsupported(f"value of {e.id} after a loop is not tracked")
            return v
        if fr.func is not None and e.id in getattr(fr, "unbound", ()):
            raise PyRaise("UnboundLocalError", e.id)
        return self.lookup_global(fr.mod, e.id)

    def e_Tuple(self, e, fr):
        return tuple(self.eval_elts(e.elts, fr))

    def e_List(self, e, fr):
        return list(self.eval_elts(e.elts, fr))

    def e_Set(self, e, fr):
        return list(self.eval_elts(e.elts, fr))

    def eval_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                if not isinstance(v, (list, tuple)):
                    raise Unsupported("starred")
                out.extend(v)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                d[self.eval(k, fr)] = self.eval(v, fr)
        return d

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                try:
                    x = self.eval(v.value, fr)
                except (PyRaise, Unsupported):
                    return Opaque("fstring")
                if isinstance(x, str) or (isinstance(x, int) and not isinstance(x, bool)):
                    if v.format_spec is not None or v.conversion != -1:
                        return Opaque("fstring")
                    out.append(str(x))
                elif hasattr(x, "prefixed") and v.format_spec is None and v.conversion == -1:
                    out.append(x)
                else:
                    return Opaque("fstring")
        if out and hasattr(out[-1], "prefixed") and all(isinstance(x, str) for x in out[:-1]):
            return out[-1].prefixed("".join(out[:-1]))
        if not all(isinstance(x, str) for x in out):
            return Opaque("fstring")
        return "".join(out)

    def e_Lambda(self, e, fr):
        return Func(fr.mod, e, None, fr.env)

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            b = self.truth(v)
            if isinstance(e.op, ast.And) and not b:
                return v if not is_sym(v) else False
            if isinstance(e.op, ast.Or) and b:
                return v if not is_sym(v) else True
        return v

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        fr.env[e.target.id] = v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            b = self.as_bool(v)
            return (not b) if isinstance(b, bool) else z3.Not(b)
        return self.lib.unary(e.op, v)

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        return self.lib.binop(op, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            res.append(self.lib.compare(op, left, right))
            left = right
        if len(res) == 1:
            return res[0]
        if all(isinstance(x, bool) for x in res):
            return all(res)
        return z3.And(*[zb(x) for x in res])

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        i = self.eval_index(e.slice, fr)
        return self.getitem(o, i)

    def eval_index(self, sl, fr):
        if isinstance(sl, ast.Slice):
            return slice(*[self.eval(x, fr) if x is not None else None for x in (sl.lower, sl.upper, sl.step)])
        if isinstance(sl, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in sl.elts)
        return self.eval(sl, fr)

    def getitem(self, o, i):
        if isinstance(o, Ext):
            return o.getitem(self, i)
        if isinstance(o, NodeList):
            if isinstance(i, slice):
                raise Unsupported("slice of node list")
            return NodeRef(o, self.norm_index(i, o.n, "layer index"))
        if isinstance(o, Arr):
            if isinstance(i, slice):
                return self.arr_slice(o, i)
            if isinstance(i, Arr):
                return self.lib.take(o, i)
            j = self.norm_index(i, o.n, "array index")
            self.ctx.note_index(j)
            return o.at(j)
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, (int, slice)):
                try:
                    return o[i]
                except IndexError:
                    raise PyRaise("IndexError")
            if is_sym(i) and isinstance(o, (list, tuple)):
                a = self.lib.to_arr(list(o))
                return self.getitem(a, i)
        if isinstance(o, dict):
            if isinstance(i, (str, int)):
                if i not in o:
                    raise PyRaise("KeyError", str(i))
                return o[i]
        hook = getattr(self.ctx, "opaque_getitem", None)
        if hook:
            r = hook(o, i)
            if r is not NotImplemented:
                return r
        raise Unsupported(f"getitem {o!r}[{i!r}]")

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def getattr(self, o, name):
        if isinstance(o, NodeRef):
            o.check()
            if name in o.lst.f:
                return o.lst.get(name, o.idx)
            f = self.find_method("Node", name)
            if f is None:
                raise PyRaise("AttributeError", f"{o.cls}.{name}")
            return BoundMethod(o, f)
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            try:
                cls = self.class_of(o.cls)
            except Unsupported:
                cls = None
            if cls is not None and name not in cls.props and name not in cls.methods:
                cls = self.base_with(cls, name)
            if cls is not None:
                if name in cls.props:
                    return self.call_inline(Func(cls.mod, cls.props[name], o.cls), [o], {})
                if name in cls.methods:
                    f = Func(cls.mod, cls.methods[name], cls.name)
                    deco = [getattr(d, "id", "") for d in cls.methods[name].decorator_list]
                    return f if "staticmethod" in deco else BoundMethod(o, f)
            raise PyRaise("AttributeError", f"{o.cls}.{name}")
        if isinstance(o, Ext):
            return o.get(self, name)
        if isinstance(o, Opaque):
            if o.name == "Constants":
                return self.ctx.constant(name)
            if o.name == "Config":
                return self.ctx.config(name)
            if name in o.attrs:
                return o.attrs[name]
            hook = getattr(self.ctx, "opaque_getattr", None)
            if hook:
                r = hook(o, name)
                if r is not NotImplemented:
                    return r
            raise Unsupported(f"attribute {o!r}.{name}")
        return self.lib.getattr(o, name)

    def e_Call(self, e, fr):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "print" and f.id not in fr.env:
            return None
        fv = self.eval(f, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if isinstance(v, Arr) and isinstance(v.n, int):
                    v = [v.at(i) for i in range(v.n)]
                if not isinstance(v, (tuple, list)):
                    raise Unsupported("starred call argument")
                args.extend(v)
            else:
                if isinstance(a, ast.GeneratorExp):
                    args.append(self.e_ListComp(a, fr))
                else:
                    args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unsupported("** argument")
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        return self.call(fv, args, kwargs, e)

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        raise Unsupported("set comprehension")

    def e_DictComp(self, e, fr):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        seq = self.lib.iter_view(self.eval(g.iter, fr))
        if not isinstance(seq, list):
            raise Unsupported("symbolic dict comprehension")
        out = {}
        for v in seq:
            f2 = Frame(fr.mod, fr.func, dict(fr.env))
            self.assign(g.target, v, f2)
            if all(self.truth(self.eval(c, f2)) for c in g.ifs):
                out[self.eval(e.key, f2)] = self.eval(e.value, f2)
        return out

    def e_ListComp(self, e, fr):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        it = self.eval(g.iter, fr)
        if isinstance(it, (NodeList, Arr)):
            it = it.snap()
        seq = self.lib.iter_view(it)
        env = fr.env
        if isinstance(seq, list):
            out = []
            for v in seq:
                f2 = Frame(fr.mod, fr.func, dict(env))
                self.assign(g.target, v, f2)
                if all(self.truth(self.eval(c, f2)) for c in g.ifs):
                    out.append(self.eval(e.elt, f2))
            return out
        lo, hi, elem = seq
        env = dict(env)
        heap = self.ctx.freeze_heap(env)
        cs = list(self.ctx.callstack)

        def run(i, expr):
            f2 = Frame(fr.mod, fr.func, dict(heap(env)))
            self.assign(g.target, elem(i), f2)
            save = self.ctx.callstack
            self.ctx.callstack = list(cs)
            try:
                return self.eval(expr, f2)
            finally:
                self.ctx.callstack = save

        def at(j):
            i = j if lo == 0 and isinstance(lo, int) else self.simp_int(zv(j) + zv(lo))
            return self.merged(lambda: run(i, e.elt))

        def safe_body():
            # evaluate once on an arbitrary element so that bounds obligations
            # inside the comprehension are generated
            k = self.ctx.int("ce")
            rng = z3.And(zv(lo) <= k, k < zv(hi))
            if not self.ctx.feasible(rng):
                return
            self.ctx.guarded_obligations(rng, lambda: at(self.simp_int(k - zv(lo))))

        safe_body()
        if isinstance(lo, int) and isinstance(hi, int):
            n = max(0, hi - lo)
        else:
            d = zv(hi) - zv(lo)
            n = self.simp_int(d) if self.ctx.entails(d >= 0) else z3.If(d < 0, z3.IntVal(0), d)
        if not g.ifs:
            a = Arr(n, at, tag=self.ctx.alloc_tag("comp"), islist=True)
            if not isinstance(n, int):
                a.at = self.lib.closed(a)
        else:
            def cond(j):
                i = j if lo == 0 and isinstance(lo, int) else self.simp_int(zv(j) + zv(lo))
                return self.merged(lambda: z3.And(*[zb(self.as_bool(run(i, c))) for c in g.ifs]))
            a = FilteredArr(n, at, cond)
        self.ctx.register(a)
        return a

    def merged(self, fn):
        res = self.ctx.merge_eval(fn)
        if not res:
            raise Abandon("no feasible path in merged expression")
        v = res[-1][1]
        for conds, w in reversed(res[:-1]):
            if not conds:
                v = w
                continue
            v = self.ite(z3.And(*conds) if len(conds) > 1 else conds[0], w, v)
        return v


class FilteredArr(HeapObj):
    """[elt for i in range if cond]: known only through sums and length."""

    def __init__(self, n, at, cond):
        self.n, self.at, self.cond = n, at, cond
        self.tag = "filtered"
        self.islist = True
