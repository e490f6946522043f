"""Loop rule: havoc what the body writes, keep the inductive candidates (Houdini)."""
import ast
from fractions import Fraction

import z3

from .values import *
from .ctx import LoopInfo
from .interp import assigned_names, BreakEx, ContinueEx, ReturnEx


class Poison:
    pass


POISON = Poison()


class Recorder:
    def __init__(self, L):
        self.L = L

    def note(self, obj, field):
        L = self.L
        if obj.tag in L.entry_tags and L.ctx.heap.get(obj.tag) is not None and (obj.tag, field) not in L.info.footprint:
            L.info.footprint.add((obj.tag, field))
            L.ctx.dirty = True

    def note_list(self, lst):
        L = self.L
        for k, v in L.entry_env.items():
            if v is lst:
                if k not in L.info.widen_lists:
                    L.info.widen_lists.add(k)
                    L.ctx.dirty = True
                raise Abandon("list widened")


class LoopState:
    """What invariant candidates may talk about."""

    def __init__(self, interp, s, fr, counted, info):
        self.interp, self.ctx, self.s, self.fr, self.counted, self.info = interp, interp.ctx, s, fr, counted, info
        self.key = None
        self.entry_env = dict(fr.env)
        self.entry_tags = set(self.ctx.heap)
        self.entry_snap = {}
        for t, o in self.ctx.heap.items():
            if isinstance(o, (NodeList, Arr)):
                self.entry_snap[t] = o.snap()
            elif isinstance(o, Obj):
                self.entry_snap[t] = dict(o.attrs)
        self.k = None
        self.lo = self.hi = None
        self.modified = sorted(assigned_names(s.body))
        if counted:
            tn = assigned_names([s.target])
            self.modified = [m for m in self.modified if m not in tn]

    @property
    def env(self):
        return self.fr.env

    @property
    def func(self):
        return self.ctx.callstack[-1] if self.ctx.callstack else ""

    def lists(self, changed_only=True):
        tags = {t for t, _ in self.info.footprint}
        for t, o in list(self.ctx.heap.items()):
            if isinstance(o, NodeList) and t in self.entry_tags and (t in tags or not changed_only):
                yield o, self.entry_snap[t]

    def fields_written(self, lst):
        return {f for t, f in self.info.footprint if t == lst.tag}


def symbolic_loop(interp, s, fr, counted):
    ctx = interp.ctx
    key = (fr.mod.name, getattr(fr.func, "qualname", ""), s.lineno, s.col_offset, tuple(ctx.callstack))
    info = ctx.loops.get(key)
    if info is None:
        info = ctx.loops[key] = LoopInfo()
        info.widen_lists = set()
        info.label = f"{'/'.join(ctx.callstack)}:loop@{s.lineno}"
    for nm in info.widen_lists:
        v = fr.env.get(nm)
        if isinstance(v, list):
            tag = ctx.alloc_tag("wl")
            if v:
                a = interp.lib.to_arr(v)
            elif tag in ctx.intlists:
                a = Arr(0, ctx.func("lst", z3.IntSort()), tag=tag, kind="int", member=lambda i: z3.BoolVal(False))
            else:
                a = Arr(0, ctx.func("lst"), tag=tag)
            a.islist = True
            ctx.register(a)
            fr.env[nm] = a
    L = LoopState(interp, s, fr, counted, info)
    L.key = key
    if counted:
        L.lo, L.hi, elem = counted
        L.k = L.lo
    cands = candidates(L)
    # initial validity
    check(L, cands, "initially")
    # havoc
    havoc(L)
    if counted:
        k = ctx.int("k")
        ctx.note_index(k)
        ctx.assume(zv(L.lo) <= k)
        # the counter never exceeds hi unless the range is empty
        ctx.assume(z3.Or(k <= zv(L.hi), k == zv(L.lo)))
        L.k = k
    alive = [c for c in cands if c[0] not in info.removed]
    for nm, f, _ in alive:
        ctx.assume(f())
    for lst, _ in L.lists():
        sum_lemmas(ctx, lst)
    which = ctx.choose(2)
    if which == 0:
        # exit
        if counted:
            ctx.assume(k == z3.If(zv(L.hi) > zv(L.lo), zv(L.hi), zv(L.lo)))
            L.k = k
            if isinstance(s.target, ast.Name):
                if s.target.id not in assigned_names(s.body) and ctx.entails(zv(L.hi) > zv(L.lo)):
                    fr.env[s.target.id] = elem(interp.sub1(L.hi))
                elif s.target.id in L.entry_env and ctx.entails(zv(L.hi) <= zv(L.lo)):
                    pass
                else:
                    fr.env[s.target.id] = POISON
        else:
            if interp.truth(interp.eval(s.test, fr)):
                raise Abandon("loop continues")
        if not ctx.feasible(z3.BoolVal(True)):
            raise Abandon("infeasible")
        for lst, _ in L.lists():
            sum_lemmas(ctx, lst)
        if s.orelse:
            interp.exec_block(s.orelse, fr)
        return
    # one arbitrary iteration
    rec = Recorder(L)
    if counted:
        ctx.assume(k < zv(L.hi))
        if not ctx.feasible(z3.BoolVal(True)):
            raise Abandon("no iteration")
    ctx.loopstack.append(rec)
    try:
        if counted:
            interp.assign(s.target, elem(k), fr)
        else:
            if not interp.truth(interp.eval(s.test, fr)):
                raise Abandon("loop ends")
        try:
            interp.exec_block(s.body, fr)
        except ContinueEx:
            pass
    except BreakEx:
        return
    finally:
        ctx.loopstack.remove(rec)
    post_types(L)
    if getattr(ctx, "iteration_end", None):
        ctx.iteration_end(L, k if counted else None)
    if counted:
        L.k = interp.add1(k)
        ctx.note_index(L.k)
    check(L, [c for c in cands if c[0] not in info.removed], "preserved")
    raise Abandon("end of iteration")


def check(L, cands, when):
    ctx = L.ctx
    for nm, f, heavy in cands:
        if nm in L.info.removed:
            continue
        if ctx.phase == "infer" and not getattr(ctx, "auto_invariants", True):
            continue
        try:
            g = f()
        except Unsupported:
            if when == "initially":
                L.info.removed.add(nm)
                ctx.dirty = True
                continue
            g = z3.BoolVal(False)
        if ctx.phase == "infer":
            r = ctx.check_valid(g, heavy=heavy, timeout_ms=ctx.cand_timeout if heavy else 500)
            if r.status != "proved":
                if getattr(ctx, "debug_inv", None) and ctx.debug_inv in nm:
                    print("REMOVED", L.info.label, nm, when, r.status, ctx.pathlog[-3:])
                    if r.model is not None:
                        print(ctx.describe(r))
                L.info.removed.add(nm)
                ctx.dirty = True
        else:
            r = ctx.check_valid(g, heavy=heavy, timeout_ms=ctx.cand_timeout if heavy else 500)
            ctx.results.append((f"loop invariant {nm} {when}", "inv", r.status, r.by, None))
            if r.status != "proved":
                ctx.inv_unstable = True
                ctx.results[-1] = (f"loop invariant {nm} {when}", "inv", "unknown", r.by, None)


def fresh_like(ctx, v, base, L, name):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return ctx.boolean(base)
    if is_num(v):
        if is_int(v) and name not in L.info.widen:
            x = ctx.int(base)
            ctx.note_index(x)
            return x
        return ctx.real(base)
    if isinstance(v, Arr):
        # the binding itself changes; same length required (checked at the end of the body)
        g = ctx.func(base)
        if hasattr(v, "ext_setitem"):
            a = v.snap()
            a.at, a.tag = g, ctx.alloc_tag("hv_" + base)
            return ctx.register(a)
        return ctx.register(Arr(v.n, g, tag=ctx.alloc_tag("hv_" + base), islist=v.islist))
    if isinstance(v, tuple):
        return tuple(fresh_like(ctx, x, base, L, name) for x in v)
    if v is None and name not in L.info.widen:
        return None
    return POISON


def havoc(L):
    ctx, I = L.ctx, L.interp
    L.havocked = {}
    for nm in L.modified:
        if nm in L.fr.env:
            v = L.fr.env[nm]
            nv = fresh_like(ctx, v, nm, L, nm)
            L.havocked[nm] = v
            L.fr.env[nm] = nv
    for tag, field in sorted(L.info.footprint):
        o = ctx.heap.get(tag)
        if o is None:
            continue
        I.note_write(o, field)
        if isinstance(o, Obj):
            v = o.attrs.get(field)
            if v is None:
                o.attrs[field] = POISON
            else:
                o.attrs[field] = fresh_like(ctx, v, field, L, field)
        elif isinstance(o, Arr):
            o.at = ctx.func("a", z3.IntSort() if o.kind == "int" else None)
            if field == "#append":
                n = ctx.int("len")
                ctx.assume(n >= 0)
                o.n = n
                if o.member is not None:
                    ctx.counter += 1
                    fn = z3.Function(f"in!{ctx.counter}", z3.IntSort(), z3.BoolSort())
                    o.member = lambda i, fn=fn: fn(zv(i))
        elif isinstance(o, NodeList):
            havoc_list(ctx, o, NodeList.FIELDS if field == "#struct" else [field], field == "#struct")
    # names assigned in the body but unbound before stay unbound


def havoc_list(ctx, o, fields, struct):
    for f in fields:
        o.f[f] = ctx.func(f[:2])
    for fname, F in ctx.functionals.items():
        if struct or (F.deps & set(fields)):
            o.tot[fname] = ctx.real("tot" + fname)
    if struct:
        n = ctx.int("n")
        ctx.assume(n >= 0)
        o.n = n
        o.structver += 1


def sum_lemmas(ctx, lst):
    """Facts about ghost totals that follow by induction on the list length."""
    n = lst.n
    rec0 = {k: lst.f[k](0) for k in NodeList.FIELDS}
    for fname, F in ctx.functionals.items():
        t = lst.tot[fname]
        if is_sym(n):
            ctx.assume(z3.Implies(zv(n) == 0, zr(t) == 0))
            ctx.assume(z3.Implies(zv(n) == 1, zr(t) == zr(F.fn(rec0))))
        f = dict(lst.f)

        def at(i, f=f, F=F):
            return zr(F.fn({k: f[k](i) for k in NodeList.FIELDS}))

        if F.nonneg and ctx.entails(Forall(0, n, lambda i: at(i) >= 0)):
            ctx.assume(TotLemma(t, at, n))
            ctx.assume(zr(t) >= 0)


class TotLemma:
    """sum of non-negative terms dominates each term and each pair"""

    def __init__(self, t, at, n):
        self.t, self.at, self.n = zr(t), at, n

    def inst(self, i):
        i, n = zv(i), zv(self.n)
        return z3.Implies(z3.And(i >= 0, i < n), self.t >= self.at(i))

    def inst2(self, i, j):
        i, j, n = zv(i), zv(j), zv(self.n)
        return z3.Implies(z3.And(i >= 0, i < j, j < n), self.t >= self.at(i) + self.at(j))


def post_types(L):
    ctx = L.ctx
    for nm in L.modified:
        if nm in L.havocked:
            old, new = L.havocked[nm], L.fr.env.get(nm)
            if is_num(old) and is_num(new) and is_int(old) and not is_int(new) and nm not in L.info.widen:
                L.info.widen.add(nm)
                ctx.dirty = True
            elif old is None and new is not None:
                L.info.widen.add(nm)
                ctx.dirty = True
            elif is_num(old) and not is_num(new) and not isinstance(old, Poison):
                raise Unsupported(f"loop changes the type of {nm}")
            elif isinstance(old, Arr):
                if not isinstance(new, Arr) or L.interp.idx_eq(old.n, new.n) is not True:
                    raise Unsupported(f"loop changes the length of {nm}")
    for tag, field in L.info.footprint:
        o = ctx.heap.get(tag)
        if isinstance(o, Obj):
            v = L.entry_snap.get(tag, {}).get(field)
            nv = o.attrs.get(field)
            if is_num(v) and is_num(nv) and is_int(v) and not is_int(nv) and field not in L.info.widen:
                L.info.widen.add(field)
                ctx.dirty = True


# ---------------------------------------------------------------- candidates
def candidates(L):
    ctx, I = L.ctx, L.interp
    out = []

    def add(name, f, heavy=False):
        out.append((name, f, heavy))

    env0 = L.entry_env
    if not getattr(ctx, "auto_invariants", True):
        for nm, f in ctx.invgen(L):
            out.append((f"spec:{nm}", live(ctx, f), True))
        return out
    lists = list(L.lists())
    all_lists = list(L.lists(False))
    structs = {lst.tag for lst, _ in lists if "#struct" in L.fields_written(lst)}
    for nm in L.modified:
        v0 = env0.get(nm)
        if not is_num(v0):
            continue
        cur = lambda nm=nm: L.env[nm]
        add(f"{nm}>=entry", lambda c=cur, v=v0: zr(c()) >= zr(v))
        add(f"{nm}<=entry", lambda c=cur, v=v0: zr(c()) <= zr(v))
        add(f"{nm}>=0", lambda c=cur: zr(c()) >= 0)
        add(f"{nm}>0", lambda c=cur: zr(c()) > 0)
        if is_int(v0):
            for lst, _ in all_lists:
                add(f"{nm}<=n[{lst.tag}]", lambda c=cur, l=lst: zv(c()) <= zv(l.n))
            if L.counted:
                add(f"{nm}-entry<=k-lo", lambda c=cur, v=v0: zv(c()) - zv(v) <= zv(L.k) - zv(L.lo))
        for lst, e in lists:
            for fname, F in ctx.functionals.items():
                if not (F.deps & L.fields_written(lst)) and lst.tag not in structs:
                    continue
                for sg in (1, -1):
                    add(f"{nm}-entry=={'+' if sg > 0 else '-'}d{fname}[{lst.tag}]",
                        lambda c=cur, v=v0, l=lst, e=e, fn=fname, sg=sg:
                        zr(c()) - zr(v) == (zr(l.tot[fn]) - zr(e.tot[fn])) * sg)
        if L.counted:
            for lst, e in all_lists:
                if lst.tag in structs:
                    continue
                for fname, F in ctx.functionals.items():
                    if F.deps & L.fields_written(lst):
                        continue
                    if len(F.deps) > 1 and not getattr(F, "prefix", False):
                        continue

                    def pref(l=lst, F=F):
                        f = dict(l.f)
                        return I.lib.prefix(lambda i: zr(F.fn({k: f[k](i) for k in NodeList.FIELDS})), l.n)

                    add(f"{nm}-entry==prefix {fname}",
                        lambda c=cur, v=v0, p=pref: zr(c()) - zr(v) == p()(L.k) - p()(L.lo))
    for tag, field in sorted(L.info.footprint):
        o = ctx.heap.get(tag)
        e = L.entry_snap.get(tag)
        if isinstance(o, Obj) and is_num(o.attrs.get(field)):
            v0 = e[field]
            if is_int(v0):
                for lst, le in all_lists:
                    add(f"{tag}.{field}==n[{lst.tag}]", lambda o=o, fd=field, l=lst: zv(o.attrs[fd]) == zv(l.n))
            add(f"{tag}.{field}==entry", lambda o=o, fd=field, v=v0: zr(o.attrs[fd]) == zr(v))
        elif isinstance(o, Arr):
            if o.kind != "int":
                add(f"{tag}[]>=0", lambda o=o: Forall(0, o.n, lambda i, g=o.at: zr(g(i)) >= 0))
            if L.counted:
                add(f"{tag}[] unchanged from k", lambda o=o, e=e: Forall(L.k, o.n, lambda i, g=o.at, h=e.at: zr(g(i)) == zr(h(i))))
            if field == "#append":
                add(f"{tag} len<=entry+k-lo", lambda o=o, e=e: zv(o.n) - zv(e.n) <= (zv(L.k) - zv(L.lo) if L.counted else zv(o.n)))
                add(f"{tag} []>=0", lambda o=o: Forall(0, o.n, lambda i, g=o.at: zr(g(i)) >= 0))
                if o.kind == "int":
                    add(f"{tag} ascending", lambda o=o: Forall(0, zv(o.n) - 1, lambda i, g=o.at: zv(g(i)) < zv(g(i + 1))))
                if L.counted:
                    add(f"{tag} []<k", lambda o=o: Forall(0, o.n, lambda i, g=o.at, k=L.k: zr(g(i)) < zr(k)))
    for lst, e in lists:
        w = L.fields_written(lst)
        t = lst.tag
        for fname, F in ctx.functionals.items():
            if lst.tag in structs or (F.deps & w):
                add(f"tot {fname}==entry[{t}]", lambda l=lst, e=e, fn=fname: zr(l.tot[fn]) == zr(e.tot[fn]), True)
                add(f"tot {fname}<=entry[{t}]", lambda l=lst, e=e, fn=fname: zr(l.tot[fn]) <= zr(e.tot[fn]))
        if "#struct" in w:
            add(f"n<=entry[{t}]", lambda l=lst, e=e: zv(l.n) <= zv(e.n))
            add(f"n>=1[{t}]", lambda l=lst: zv(l.n) >= 1)
        fields = NodeList.FIELDS if "#struct" in w else sorted(w)
        for f in fields:
            if f.startswith("#"):
                continue
            add(f"{f}>0[{t}]", lambda l=lst, f=f: Forall(0, l.n, lambda i, g=l.f[f]: g(i) > 0), True)
            add(f"{f}>=0[{t}]", lambda l=lst, f=f: Forall(0, l.n, lambda i, g=l.f[f]: g(i) >= 0), True)
            if f in ("ice_fraction", "liquid_water_content"):
                add(f"{f}<=1[{t}]", lambda l=lst, f=f: Forall(0, l.n, lambda i, g=l.f[f]: g(i) <= 1), True)
            if "#struct" not in w:
                if L.counted:
                    add(f"{f} unchanged from k[{t}]", lambda l=lst, e=e, f=f: Forall(L.k, l.n, lambda i, g=l.f[f], h=e.f[f]: g(i) == h(i)))
                    add(f"{f} unchanged after k[{t}]", lambda l=lst, e=e, f=f: Forall(L.interp.add1(L.k), l.n, lambda i, g=l.f[f], h=e.f[f]: g(i) == h(i)))
                add(f"{f}>=entry[{t}]", lambda l=lst, e=e, f=f: Forall(0, l.n, lambda i, g=l.f[f], h=e.f[f]: g(i) >= h(i)))
                add(f"{f}<=entry[{t}]", lambda l=lst, e=e, f=f: Forall(0, l.n, lambda i, g=l.f[f], h=e.f[f]: g(i) <= h(i)))
    if ctx.invgen is not None:
        for nm, f in ctx.invgen(L):
            out.append((f"spec:{nm}", live(ctx, f), True))
    return out


def live(ctx, f):
    """the state may be read only while the candidate is being built (never from a quantifier body)"""
    def g():
        ctx.live = True
        try:
            return f()
        finally:
            ctx.live = False
    return g
