"""Proof context: path exploration, facts, obligations, solver back ends."""
import itertools
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from .values import *

STATS = {"queries": 0, "cached": 0, "solver_s": 0.0, "by": {}}
_CACHE = {}
_KEEP = []

CVC5 = os.environ.get("PYVC_CVC5", "cvc5")


def _run_z3(assertions, timeout_ms, tactic=None):
    t0 = time.time()
    if tactic:
        s = z3.Tactic(tactic).solver()
    else:
        s = z3.Solver()
    # deterministic resource bound; wall-clock only as a backstop
    s.set("rlimit", int(timeout_ms) * 20000)
    s.set("timeout", int(timeout_ms) * 5)
    s.add(*assertions)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t0
    return str(r), s


def _run_cvc5(assertions, timeout_ms):
    t0 = time.time()
    s = z3.Solver()
    s.add(*assertions)
    txt = s.to_smt2()
    txt = "(set-logic ALL)\n" + txt
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run([CVC5, f"--rlimit={int(timeout_ms) * 1000}", f"--tlimit={int(timeout_ms) * 5}", f.name],
                           capture_output=True, text=True, timeout=timeout_ms / 200 + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except Exception:
        out = "unknown"
    finally:
        os.unlink(f.name)
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t0
    return out if out in ("sat", "unsat") else "unknown"


class Result:
    __slots__ = ("status", "by", "model", "assertions")

    def __init__(self, status, by, model=None, assertions=None):
        self.status, self.by, self.model, self.assertions = status, by, model, assertions


TIGHT = int(os.environ.get("PYVC_TIGHT", "200"))


def decide(assertions, timeout_ms=4000, heavy=True):
    """Is the conjunction unsatisfiable?  -> Result('proved'|'sat'|'unknown')"""
    key = (tuple(sorted({a.get_id() for a in assertions})), heavy)
    if key in _CACHE:
        STATS["cached"] += 1
        return _CACHE[key]
    _KEEP.append(list(assertions))
    res = None
    if heavy and TIGHT and len(assertions) > TIGHT:
        for part in tight(assertions, assertions[-1]):
            r, s = _run_z3(part, 50)
            if r == "unsat":
                res = _CACHE[key] = Result("proved", "z3")
                STATS["by"]["z3"] = STATS["by"].get("z3", 0) + 1
                return res
    r, s = _run_z3(assertions, min(timeout_ms, 300) if heavy else min(timeout_ms, 1500))
    if r == "unsat":
        res = Result("proved", "z3")
    elif r == "sat":
        res = Result("sat", "z3", s.model(), assertions)
    elif heavy:
        res, r2, s2 = _heavy(assertions, timeout_ms)
        if res is None and r2 == "sat":
            try:
                res = Result("sat", "z3/nlsat", s2.model(), assertions)
            except z3.Z3Exception:
                pass
    if res is None:
        res = Result("unknown", "timeout", None, assertions)
    STATS["by"][res.by] = STATS["by"].get(res.by, 0) + 1
    _CACHE[key] = res
    return res


def _heavy(assertions, timeout_ms):
    simp, lin = presimplify(assertions)
    if simp is None:
        return Result("proved", "z3"), "unsat", None
    memo = {}

    def differ(x, y):
        if not (z3.is_int(x) and z3.is_int(y)):
            return False
        k = (x.get_id(), y.get_id())
        if k not in memo:
            d = z3.simplify(x - y)
            memo[k] = d.as_long() != 0 if z3.is_int_value(d) else lin.check(x == y) == z3.unsat
        return memo[k]

    # purified nlsat: array reads become variables with functional congruence
    pa = purify(simp, differ)
    r2, s2 = _run_z3(pa, min(timeout_ms, 400), "qfnra-nlsat")
    if r2 == "unsat":
        return Result("proved", "z3/nlsat"), r2, s2
    if r2 != "sat":
        for i, part in enumerate(layers(simp, assertions[-1])):
            if i > 4 or len(part) == len(simp):
                break
            r, _ = _run_z3(purify(part, differ), 300, "qfnra-nlsat")
            if r == "unsat":
                return Result("proved", "z3/nlsat"), r, None
        r2, s2 = _run_z3(pa, timeout_ms, "qfnra-nlsat")
        if r2 == "unsat":
            return Result("proved", "z3/nlsat"), r2, s2
    if r2 == "sat" and not integral(s2, simp):
        r2 = "unknown"          # a model of the relaxation only
    r4, s4 = _run_z3(simp, timeout_ms if r2 != "sat" else min(timeout_ms, 1000))
    if r4 == "unsat":
        return Result("proved", "z3"), r4, None
    if r4 == "sat":
        return Result("sat", "z3", s4.model(), assertions), r4, None
    if r2 != "sat" and timeout_ms > 1500:
        r3 = _run_cvc5(simp, timeout_ms)
        if r3 == "unsat":
            return Result("proved", "cvc5"), r3, None
    return None, r2, s2


def integral(solver, assertions):
    """do the integer constants have integer values in a model of the purified query?"""
    try:
        m = solver.model()
    except z3.Z3Exception:
        return True
    names, seen, todo = set(), set(), list(assertions)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.num_args() == 0 and z3.is_int(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add("pv!" + e.decl().name())
            todo.extend(e.children())
    for d in m.decls():
        if d.name() in names:
            v = m[d]
            if not (z3.is_rational_value(v) and v.denominator_as_long() == 1 or z3.is_int_value(v)):
                return False
    return True


def purify(assertions, differ=None):
    """Ackermannize all uninterpreted applications and turn integers into reals
    (a relaxation: more models, so 'unsat' stays sound)."""
    apps = {}
    memo = {}
    defs = []
    differ = differ or (lambda x, y: False)

    def walk(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                args = [walk(c) for c in e.children()]
                if z3.is_bool(e):
                    r = e if not args else z3.Bool(f"pb!{k}")
                else:
                    r = z3.Real(f"pf!{k}") if args else z3.Real("pv!" + d.name())
                if args:
                    apps.setdefault(d.name(), []).append((args, r, e.children()))
            elif d.kind() == z3.Z3_OP_TO_REAL:
                r = walk(e.children()[0])
            elif z3.is_int_value(e):
                r = z3.RealVal(e.as_long())
            elif d.kind() == z3.Z3_OP_ITE and not z3.is_bool(e):
                c, a, b = [walk(x) for x in e.children()]
                r = z3.Real(f"pi!{k}")
                defs.append(z3.Or(z3.Not(c), r == a))
                defs.append(z3.Or(c, r == b))
            elif e.num_args() == 0:
                r = e
            else:
                ch = [walk(c) for c in e.children()]
                kind = d.kind()
                if kind == z3.Z3_OP_ADD:
                    r = sum(ch[1:], ch[0])
                elif kind == z3.Z3_OP_MUL:
                    r = ch[0]
                    for c in ch[1:]:
                        r = r * c
                elif kind == z3.Z3_OP_SUB:
                    r = ch[0]
                    for c in ch[1:]:
                        r = r - c
                elif kind == z3.Z3_OP_UMINUS:
                    r = -ch[0]
                elif kind == z3.Z3_OP_LE:
                    r = ch[0] <= ch[1]
                elif kind == z3.Z3_OP_GE:
                    r = ch[0] >= ch[1]
                elif kind == z3.Z3_OP_LT:
                    r = ch[0] < ch[1]
                elif kind == z3.Z3_OP_GT:
                    r = ch[0] > ch[1]
                elif kind == z3.Z3_OP_EQ:
                    r = ch[0] == ch[1]
                elif kind == z3.Z3_OP_DISTINCT:
                    r = z3.Distinct(*ch)
                elif kind == z3.Z3_OP_AND:
                    r = z3.And(*ch)
                elif kind == z3.Z3_OP_OR:
                    r = z3.Or(*ch)
                elif kind == z3.Z3_OP_NOT:
                    r = z3.Not(ch[0])
                elif kind == z3.Z3_OP_IMPLIES:
                    r = z3.Implies(ch[0], ch[1])
                elif kind == z3.Z3_OP_ITE:
                    r = z3.If(ch[0], ch[1], ch[2])
                elif kind == z3.Z3_OP_DIV:
                    r = ch[0] / ch[1]
                else:
                    # unknown operator (int div / mod ...): opaque value
                    r = z3.Bool(f"pb!{k}") if z3.is_bool(e) else z3.Real(f"pf!{k}")
        else:
            r = z3.Bool(f"pb!{k}")
        memo[k] = r
        return r

    out = [z3.simplify(x) for x in [walk(a) for a in assertions] + defs]
    out = [x for x in out if not z3.is_true(x)]
    for name, lst in apps.items():
        for (a1, r1, e1), (a2, r2, e2) in itertools.combinations(lst, 2):
            if any(differ(x, y) for x, y in zip(e1, e2)):
                continue
            out.append(z3.Implies(z3.And(*[x == y for x, y in zip(a1, a2)]), r1 == r2))
    return out


def is_linear(e, memo):
    """no product of two non-numerals, no division by a non-numeral"""
    k = e.get_id()
    if k not in memo:
        r = z3.is_app(e)
        if r and e.num_args():
            kind = e.decl().kind()
            ch = e.children()
            r = all(is_linear(c, memo) for c in ch)
            if r and kind == z3.Z3_OP_MUL:
                r = sum(1 for c in ch if _pure_num(c) is None) <= 1
            elif r and kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER, z3.Z3_OP_REM):
                r = _pure_num(ch[1]) is not None
        memo[k] = r
    return memo[k]


def has_ite(e, memo):
    k = e.get_id()
    if k not in memo:
        memo[k] = z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c, memo) for c in e.children()))
    return memo[k]


COMPARE = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT)


def presimplify(assertions):
    """Replace the comparisons that the linear part of the assertions decides by their truth value.

    Equivalent to the input: every decided comparison is itself kept (or implied by what is kept)."""
    units, rest, have = [], [], set()

    def put(f):
        if z3.is_and(f):
            for c in f.children():
                put(c)
        elif z3.is_not(f) and z3.is_or(f.arg(0)):
            for c in f.arg(0).children():
                put(z3.simplify(z3.Not(c)))
        elif not z3.is_true(f) and f.get_id() not in have:
            have.add(f.get_id())
            _KEEP.append(f)
            x = f.arg(0) if z3.is_not(f) else f
            (units if x.decl().kind() in COMPARE and is_linear(x, lin) and not has_ite(x, ites) else rest).append(f)

    lin, ites = {}, {}
    for a in assertions:
        put(z3.simplify(a))
    for rnd in range(3):
        base = units + [a for a in rest if is_linear(a, lin)]
        s = z3.Solver()
        s.set("rlimit", 3000000)
        s.set("timeout", 2000)
        s.add(*base)
        st = s.check()
        if st == z3.unsat:
            return None, s
        m = s.model() if st == z3.sat else None
        atoms, seen, stack = [], set(), list(rest)
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.decl().kind() in COMPARE and z3.is_arith(e.arg(0)) and is_linear(e, lin):
                    atoms.append(e)
                stack.extend(e.children())
        if len(atoms) > 1500:
            break
        subs = []
        for a in atoms:
            v = m.eval(a, model_completion=True) if m is not None else None
            if (v is None or not z3.is_false(v)) and s.check(z3.Not(a)) == z3.unsat:
                subs.append((a, z3.BoolVal(True)))
            elif (v is None or not z3.is_true(v)) and s.check(a) == z3.unsat:
                subs.append((a, z3.BoolVal(False)))
        if not subs:
            break
        old, rest = rest, []
        have.clear()
        have.update(x.get_id() for x in units)
        oldlin = any(is_linear(a, lin) for a in old)
        for a in old:
            put(z3.simplify(z3.substitute(a, *subs)))
        if oldlin:
            for a, v in subs:
                put(z3.simplify(a if z3.is_true(v) else z3.Not(a)))
        if any(z3.is_false(x) for x in rest):
            return None, s
    return units + rest, s


def tight(assertions, goal, steps=2):
    """facts about the goal's own ground terms, then also about terms those facts define"""
    memo = {}

    def terms(e):
        return ground_terms(e, memo)

    cone = set(terms(goal))
    last = 0
    for _ in range(steps):
        sel = [a for a in assertions if terms(a) <= cone]
        if last < len(sel) < len(assertions):
            last = len(sel)
            yield sel
        for a in assertions:
            t = terms(a)
            if t & cone and len(t - cone) <= 1:
                cone = cone | t


def ground_terms(e, memo):
    k = e.get_id()
    if k not in memo:
        r = set()
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(e):
                r.add(k)
            for c in e.children():
                r |= ground_terms(c, memo)
        memo[k] = r
    return memo[k]


def layers(assertions, goal):
    """facts by distance (shared ground terms) from the goal"""
    memo = {}

    def terms(e):
        k = e.get_id()
        if k not in memo:
            r = set()
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(e):
                    r.add(k)
                for c in e.children():
                    r |= terms(c)
            memo[k] = r
        return memo[k]

    rest = list(assertions)
    cone = set(terms(goal))
    sel = []
    while rest:
        new = [a for a in rest if not terms(a) or terms(a) & cone]
        if not new:
            return
        ids = {a.get_id() for a in new}
        rest = [a for a in rest if a.get_id() not in ids]
        sel = sel + new
        for a in new:
            cone |= terms(a)
        yield list(sel)


SK = z3.Int("sk!")
JJ = z3.Int("J?inst")


def index_args(e, out, seen):
    """ground integer arguments of unary uninterpreted functions in e"""
    stack = [e]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if not z3.is_app(x):
            continue
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.arg(0).is_int():
            t = z3.simplify(x.arg(0))
            out.setdefault(t.get_id(), t)
        stack.extend(x.children())


def _pure_num(t):
    """value of a z3 numeral as Fraction, else None"""
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


class LoopInfo:
    def __init__(self):
        self.removed = set()
        self.footprint = set()   # (tag, field) written inside the body
        self.widen = set()
        self.cand_names = set()
        self.hold = set()


class Ctx:
    """One proof job (function under contract + case)."""

    def __init__(self, name, timeout_ms=4000):
        self.job = name
        self.timeout_ms = timeout_ms
        self.loops = {}
        self.phase = "check"
        self.dirty = False
        self.results = []            # (name, kind, status, by, detail)
        self.failures = []
        self.paths = 0
        self.unsupported = []
        self.functionals = {}        # name -> (fn(rec)->term, nonneg)
        self.invgen = None           # spec hook: loop candidate generator
        self.contracts = {}
        self.intlists = set()     # lists of integers grown in loops
        self.const_values = {}
        self.config_values = {}
        self.functions_used = set()
        self.inlined = set()
        self.exits = 0
        self.deadline = None
        self.assume_memo = {}
        self._merge_depth = 0
        self.live = False
        self.reset_path([])

    # ------------------------------------------------------------ paths
    def reset_path(self, decisions):
        self.decisions = list(decisions)
        self.pos = 0
        self.facts = []
        self.conds = []
        self.factset = set()
        self.foralls = []
        self.index_terms = {}
        self.counter = 0
        self.fnfacts = {}
        self.fnapps = {}       # transcendental -> list of (arg, term)
        self.cos_sin = {}
        self.heap = {}
        self.pure_memo = []
        self.old = {}
        self.tmp_mark = None
        self.callstack = []
        self.pathlog = []
        self.consts = {}
        self.loopstack = []
        self.tagcount = {}
        self.defmemo = {}
        self.defall = {}       # the same, with the facts, never rolled back within a path
        self.fact_log = None   # collects every fact met while an instance is built
        self.named_done, self.named_pending, self.tmp_depth = set(), [], 0
        self.prefixes = {}
        self.pivots = []
        self.guarded = 0
        self.named_at, self.named_all, self.named_depth = [], False, 0
        self.counts = {}

    def fresh_name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def real(self, base):
        return z3.Real(self.fresh_name(base))

    def int(self, base):
        return z3.Int(self.fresh_name(base))

    def boolean(self, base):
        return z3.Bool(self.fresh_name(base))

    def func(self, base, sort=None):
        f = z3.Function(self.fresh_name(base), z3.IntSort(), z3.RealSort() if sort is None else sort)

        memo = {}

        def at(i):
            t = zv(i)
            k = t.get_id()
            if k not in memo:
                memo[k] = (f(t), t)
            return memo[k][0]

        return at

    def assume(self, f):
        if f is None or f is True:
            return
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        if hasattr(f, "inst"):
            self.foralls.append(f)
            return
        if hasattr(f, "alts"):
            sel = self.int("alt")
            self.assume(z3.And(sel >= 0, sel < len(f.alts)))
            for k, alt in enumerate(f.alts):
                for x in alt:
                    if isinstance(x, Forall):
                        g = sel == k if x.guard is None else z3.And(sel == k, zb(x.guard))
                        self.foralls.append(Forall(x.lo, x.hi, x.body, g))
                    else:
                        self.assume(z3.Implies(sel == k, zb(x)))
            return
        if f is False:
            f = z3.BoolVal(False)
        if z3.is_true(f):
            return
        if self.fact_log is not None:
            self.fact_log.append(f)
        if f.get_id() not in self.factset:
            self.factset.add(f.get_id())
            self.facts.append(f)

    def memo_at(self, fn):
        """index closure evaluated once per index term (with the definitions it introduces)"""
        memo = {}

        def at(i):
            k = i if isinstance(i, int) else ("t", i.get_id())
            if k in memo:
                r, new, _ = memo[k]
                for x in new:
                    self.assume(x)
                return r
            nf = len(self.facts)
            r = fn(i)
            memo[k] = (r, list(self.facts[nf:]), i)
            return r

        return at

    def note_index(self, i):
        if isinstance(i, bool):
            return
        t = z3.IntVal(i) if isinstance(i, int) else i
        if isinstance(t, z3.ArithRef) and t.is_int():
            if t.num_args():
                u = z3.simplify(t)
                if z3.is_int_value(u):     # 0 + 1 - 1, ...
                    t = u
            self.index_terms.setdefault(t.get_id(), t)

    # -------------------------------------------------------- transcendental axioms
    def fn(self, name, x):
        x = zr(x)
        f = z3.Function(name, z3.RealSort(), z3.RealSort())
        t = f(x)
        lst = self.fnapps.setdefault(name, [])
        for a, b in lst:
            if a.get_id() == x.get_id():
                if self.fact_log is not None and (name, x.get_id()) in self.fnfacts:
                    self.fact_log.extend(self.fnfacts[name, x.get_id()][1])
                return b
        ax = []
        if name == "exp":
            ax += [t > 0, z3.Implies(x <= 0, t <= 1), z3.Implies(x >= 0, t >= 1),
                   z3.Implies(x < 0, t < 1), z3.Implies(x == 0, t == 1), t >= 1 + x]
            for a, b in lst:
                ax += [z3.Implies(a < x, b < t), z3.Implies(x < a, t < b), z3.Implies(x == a, t == b)]
        elif name == "log":
            ax += [z3.Implies(x > 1, t > 0), z3.Implies(x == 1, t == 0),
                   z3.Implies(z3.And(x > 0, x < 1), t < 0), z3.Implies(x > 0, t <= x - 1)]
            for a, b in lst:
                ax += [z3.Implies(z3.And(a > 0, a < x), b < t), z3.Implies(z3.And(x > 0, x < a), t < b)]
        elif name == "tanh":
            ax += [t > -1, t < 1, z3.Implies(x > 0, t > 0), z3.Implies(x < 0, t < 0), z3.Implies(x == 0, t == 0)]
            for a, b in lst:
                ax += [z3.Implies(a < x, b < t), z3.Implies(x < a, t < b)]
        elif name == "sqrt":
            ax += [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x > 0, t > 0)]
        elif name in ("cos", "sin"):
            ax += [t >= -1, t <= 1]
            pi = self.pi()
            if name == "cos":
                ax += [z3.Implies(x == 0, t == 1),
                       z3.Implies(z3.And(x > -pi / 2, x < pi / 2), t > 0)]
            else:
                ax += [z3.Implies(x == 0, t == 0), z3.Implies(z3.And(x > 0, x < pi), t > 0), z3.Implies(z3.And(x < 0, x > -pi), t < 0)]
            other = "sin" if name == "cos" else "cos"
            g = z3.Function(other, z3.RealSort(), z3.RealSort())
            ax += [t * t + g(x) * g(x) == 1]
            for a, b in lst:
                ax += [z3.Implies(a == x, t == b), z3.Implies(a == -x, t == (b if name == "cos" else -b))]
        elif name in ("arctan",):
            pi = self.pi()
            ax += [t > -pi / 2, t < pi / 2, z3.Implies(x == 0, t == 0), z3.Implies(x > 0, t > 0), z3.Implies(x < 0, t < 0)]
        elif name in ("asin",):
            pi = self.pi()
            ax += [t >= -pi / 2, t <= pi / 2, z3.Implies(x == 0, t == 0), z3.Implies(x > 0, t > 0), z3.Implies(x < 0, t < 0)]
            ax += [z3.Implies(z3.And(a >= -1, a < x, x <= 1), b < t) for a, b in lst]
            ax += [z3.Implies(z3.And(x >= -1, x < a, a <= 1), t < b) for a, b in lst]
            ax += [z3.Implies(a == x, t == b) for a, b in lst]
            S, C = (z3.Function(n, z3.RealSort(), z3.RealSort())(t) for n in ("sin", "cos"))
            ax += [z3.Implies(z3.And(x >= -1, x <= 1), z3.And(S == x, C >= 0, C * C == 1 - x * x))]
        elif name in ("acos",):
            pi = self.pi()
            ax += [t >= 0, t <= pi, z3.Implies(x == 1, t == 0), z3.Implies(x == -1, t == pi)]
            ax += [z3.Implies(z3.And(a >= -1, a < x, x <= 1), b > t) for a, b in lst]
            ax += [z3.Implies(z3.And(x >= -1, x < a, a <= 1), t > b) for a, b in lst]
        lst.append((x, t))
        for a in ax:
            self.assume(a)
        self.fnfacts[name, x.get_id()] = (x, [zb(a) for a in ax])
        return t

    def fn_atan2(self, y, x):
        """angle of the vector (x, y)"""
        y, x = zr(y), zr(x)
        t = z3.Function("atan2", z3.RealSort(), z3.RealSort(), z3.RealSort())(y, x)
        pi = self.pi()
        r = self.fn("sqrt", x * x + y * y)
        S, C = (z3.Function(n, z3.RealSort(), z3.RealSort())(t) for n in ("sin", "cos"))
        for a in (r * S == y, r * C == x, S * S + C * C == 1, t >= -pi, t <= pi, z3.Implies(y > 0, z3.And(t > 0, t < pi)), z3.Implies(y < 0, z3.And(t > -pi, t < 0)),
                  z3.Implies(y == 0, z3.And(z3.Implies(x >= 0, t == 0), z3.Implies(x < 0, t == pi)))):
            self.assume(a)
        return t

    def pi(self):
        p = z3.Real("pi")
        self.assume(p > z3.RealVal("3.14159"))
        self.assume(p < z3.RealVal("3.1416"))
        return p

    saw_named = False       # a named function whose definition depends on the index was met

    # ------------------------------------------------------------ solving
    def _template(self, f):
        """body of f at a placeholder index, or None when it introduces definitions"""
        if "_tpl" not in f.__dict__:
            nf = len(self.facts)
            self.saw_named = False
            saved = (dict(self.index_terms), dict(self.defmemo), {k: list(v) for k, v in self.fnapps.items()},
                     dict(self.prefixes), len(self.foralls))
            body = f.inst(JJ)
            new = self.facts[nf:]
            for x in new:
                self.factset.discard(x.get_id())
            del self.facts[nf:]
            del self.foralls[saved[4]:]
            self.index_terms, self.defmemo, self.fnapps, self.prefixes = saved[:4]
            if new or self.saw_named:
                f._tpl = None
            else:
                args = {}
                index_args(body, args, set())
                args.pop(JJ.get_id(), None)
                f._tpl = (body, list(args.values()))
        return f._tpl

    def _inst(self, f, t, found=None):
        """instance of f at t, memoised together with the definitions it needs"""
        memo = f.__dict__.setdefault("_memo", {})
        k = t.get_id()
        if k not in memo:
            tpl = self._template(f)
            if tpl is not None:
                r = z3.substitute(tpl[0], (JJ, t))
                args = [z3.simplify(z3.substitute(x, (JJ, t))) for x in tpl[1]]
                memo[k] = (r, (), t, {x.get_id(): x for x in args})
            else:
                log, self.fact_log = self.fact_log, []
                try:
                    r = f.inst(t)
                    new, seen = [], set()
                    for x in self.fact_log:
                        if x.get_id() not in seen:
                            seen.add(x.get_id())
                            new.append(x)
                finally:
                    self.fact_log = log
                args = {}
                index_args(r, args, set())
                memo[k] = (r, new, t, args)
        r, new, _, args = memo[k]
        for x in new:
            self.assume(x)
        if found is not None:
            found.update(args)
        return r

    def assertions(self, extra=(), pairs=True, rounds=1):
        """facts + instances of the quantified facts at the index terms in play"""
        a = list(self.facts)
        fs = list(self.foralls)
        self.more_terms = False
        if fs:
            gterms = {}
            stable = [t for t in self.index_terms.values() if t.get_id() != SK.get_id()]
            for e in extra:
                index_args(e, gterms, set())
            for t in gterms.values():
                self.note_index(t)
            done = set()
            goal_ids = set(gterms)
            if SK.get_id() in self.index_terms:
                goal_ids.add(SK.get_id())
            for rnd in range(rounds):
                found = {}
                for fi, f in enumerate(fs):
                    for tid, t in list(self.index_terms.items()):
                        if (fi, tid) in done:
                            continue
                        done.add((fi, tid))
                        a.append(self._inst(f, t, found if tid in goal_ids else None))
                found = {k: t for k, t in found.items() if k not in self.index_terms}
                if not found:
                    break
                if rnd == rounds - 1:
                    self.more_terms = True
                    break
                if len(self.index_terms) + len(found) > 40:
                    break
                goal_ids = set(found)
                for t in found.values():
                    self.note_index(t)
            if pairs:
                for f in fs:
                    if hasattr(f, "inst2"):
                        terms = list(self.index_terms.values()) if getattr(f, "pair_all", False) else stable
                        if len(terms) > (20 if getattr(f, "pair_all", False) else 12):
                            continue
                        memo = f.__dict__.setdefault("_memo2", {})
                        for x in terms:
                            for y in terms:
                                if x.get_id() != y.get_id():
                                    k = (x.get_id(), y.get_id())
                                    if k not in memo:
                                        memo[k] = (f.inst2(x, y), x, y)
                                    a.append(memo[k][0])
            # facts may have been added while instantiating
            known = {x.get_id() for x in a}
            a += [x for x in self.facts if x.get_id() not in known]
        return a + list(extra)

    def solve(self, neg, heavy, timeout_ms):
        """staged instantiation: few instances first"""
        rounds = self.inst_rounds if heavy else 1
        for rnd in range(1, rounds + 1):
            A = self.assertions([neg], heavy, rnd)
            last = rnd == rounds or not self.more_terms
            r = decide(A, timeout_ms if last else min(timeout_ms, 300), heavy and last)
            if r.status == "proved" or last:
                return r
        return r

    def _with_tmp(self, fn):
        """run fn with index terms / facts restored afterwards"""
        it, nf, nfa = dict(self.index_terms), len(self.facts), len(self.foralls)
        fa = {k: list(v) for k, v in self.fnapps.items()}
        dm = dict(self.defmemo)
        pr = dict(self.prefixes)
        self.tmp_depth += 1
        try:
            return fn()
        finally:
            self.tmp_depth -= 1
            self.index_terms = it
            for x in self.facts[nf:]:
                self.factset.discard(x.get_id())
            del self.facts[nf:]
            del self.foralls[nfa:]
            self.fnapps = fa
            self.defmemo = dm
            self.prefixes = pr

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("proof time budget exhausted")

    def check_valid(self, goal, heavy=True, timeout_ms=None):
        """Result of  facts |= goal  (goal: Bool, Forall, list)."""
        self.check_deadline()
        if self.named_pending and not self.tmp_depth and not self._merge_depth:
            todo, self.named_pending = self.named_pending, []
            for t, definition in todo:
                self.assume(t == definition())
        if goal is True:
            return Result("proved", "trivial")
        if isinstance(goal, (list, tuple)):
            for g in goal:
                r = self.check_valid(g, heavy, timeout_ms)
                if r.status != "proved":
                    return r
            return Result("proved", "z3")
        if hasattr(goal, "alts"):
            best = None
            for alt in goal.alts:
                r = self.check_valid(list(alt), heavy, timeout_ms)
                if r.status == "proved":
                    return r
                if best is None or r.status == "unknown":
                    best = r
            return best

        def go():
            if isinstance(goal, Forall):
                sk = SK
                self.assume(zv(goal.lo) <= sk)
                self.assume(sk < zv(goal.hi))
                if goal.guard is not None:
                    self.assume(zb(goal.guard))
                self.note_index(sk)
                g = goal.body(sk)
                if isinstance(g, (list, tuple)):
                    g = z3.And(*[zb(x) for x in g])
            else:
                g = goal
            if g is True:
                return Result("proved", "trivial")
            if g is False:
                g = z3.BoolVal(False)
            if z3.is_true(z3.simplify(g)):
                return Result("proved", "simplify")
            if z3.is_and(g) and g.num_args() > 1:
                for c in g.children():
                    r = self.solve(z3.Not(c), heavy, timeout_ms or self.timeout_ms)
                    if r.status != "proved":
                        return r
                return r
            return self.solve(z3.Not(g), heavy, timeout_ms or self.timeout_ms)

        return self._with_tmp(go)

    def entails(self, goal, timeout_ms=500):
        return self.check_valid(goal, heavy=False, timeout_ms=timeout_ms).status == "proved"

    def feasible(self, cond):
        return self._with_tmp(lambda: self._feasible(cond))

    def _feasible(self, cond):
        key_as = self.assertions([cond], pairs=False)
        key = ("feas", tuple(sorted({x.get_id() for x in key_as})))
        if key in _CACHE:
            return _CACHE[key]
        _KEEP.append(key_as)
        st, _ = _run_z3(key_as, 400)
        v = st != "unsat"
        _CACHE[key] = v
        return v

    # --------------------------------------------------------- decisions
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.check_deadline()
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos][0]
        else:
            ft = self.feasible(cond)
            ff = self.feasible(z3.Not(cond))
            if ft and ff:
                self.decisions.append((True, False))
            elif ft:
                self.decisions.append((True, None))
            elif ff:
                self.decisions.append((False, None))
            else:
                raise Abandon("infeasible path")
            d = self.decisions[self.pos][0]
        self.pos += 1
        c = cond if d else z3.Not(cond)
        self.conds.append(c)
        self.assume(c)
        return d

    def choose(self, n):
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos][0]
        else:
            self.decisions.append((0, ("more", n)))
            d = 0
        self.pos += 1
        return d

    @staticmethod
    def _next_decisions(decs):
        """next decision sequence in DFS order, or None"""
        decs = list(decs)
        while decs:
            v, alt = decs.pop()
            if alt is None:
                continue
            if alt is False:
                decs.append((False, None))
                return decs
            if isinstance(alt, tuple) and alt[0] == "more":
                nv = v + 1
                if nv < alt[1]:
                    decs.append((nv, alt if nv + 1 < alt[1] else None))
                    return decs
                continue
        return None

    path_start = None        # called at the start of every path

    def explore(self, run):
        """run(): executes one path; explores all of them, Houdini to fixpoint."""
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40:
                raise Unsupported("invariant inference did not converge")
            self.phase = "infer"
            self.dirty = False
            self._explore_once(run)
            if not self.dirty:
                break
        self.houdini_rounds = rounds
        self.phase = "check"
        self.results, self.failures, self.paths, self.exits = [], [], 0, 0
        self.dirty = False
        self._explore_once(run)
        if self.dirty:
            raise Unsupported("invariant inference unstable")

    def _explore_once(self, run):
        decs = []
        while decs is not None:
            self.reset_path(decs)
            if self.path_start is not None:
                self.path_start()
            self.paths += 1
            if self.paths > 4000:
                raise Unsupported("too many paths")
            try:
                run()
                self.exits += 1
            except Abandon:
                pass
            decs = self._next_decisions(self.decisions)

    def merge_eval(self, fn):
        """Evaluate a side-effect-free fn over all its paths -> [(conds, value)].

        Facts added on a sub-path are kept, guarded by that sub-path's conditions.
        """
        saved = (self.decisions, self.pos, self.conds)
        results, extra = [], []
        decs = []
        n = 0
        while decs is not None:
            n += 1
            if n > 64:
                raise Unsupported("too many paths in a merged expression")
            self.decisions, self.pos, self.conds = list(decs), 0, []
            base = len(self.facts)
            # memo tables may refer to facts of an abandoned sub-path
            dm, fa = dict(self.defmemo), {k: list(v) for k, v in self.fnapps.items()}
            pr = dict(self.prefixes)
            self._merge_depth += 1
            try:
                v = fn()
                ok = True
            except Abandon:
                ok = False
            finally:
                self._merge_depth -= 1
                new = self.facts[base:]
                for x in new:
                    self.factset.discard(x.get_id())
                del self.facts[base:]
            conds = list(self.conds)
            cid = {c.get_id() for c in conds}
            if ok:
                results.append((conds, v))
                for x in new:
                    if x.get_id() in cid:
                        continue
                    extra.append(z3.Implies(z3.And(*conds), x) if conds else x)
            if conds:
                self.defmemo, self.fnapps, self.prefixes = dm, fa, pr
            decs = self._next_decisions(self.decisions)
        self.decisions, self.pos, self.conds = saved
        for x in extra:
            self.assume(x)
        return results

    # ------------------------------------------------------------ heap
    def alloc_tag(self, base):
        k = (base, tuple(self.callstack))
        c = self.tagcount.get(k, 0)
        self.tagcount[k] = c + 1
        return f"{base}@{'/'.join(self.callstack)}#{c}"

    def register(self, obj):
        self.heap[obj.tag] = obj
        return obj

    def freeze_heap(self, env):
        memo = {}

        def fz(v):
            if id(v) in memo:
                return memo[id(v)][0]
            r = v
            if isinstance(v, NodeList):
                r = v.snap()
            elif isinstance(v, Arr):
                r = v.snap()
                if hasattr(v, "part"):
                    r.part = v.part
            elif isinstance(v, Obj):
                r = Obj(v.cls, {}, v.tag + "#frozen")
                memo[id(v)] = (r, v)
                r.attrs = {k: fz(x) for k, x in v.attrs.items()}
            elif isinstance(v, list):
                r = [fz(x) for x in v]
            memo[id(v)] = (r, v)
            return r

        frozen = {k: fz(v) for k, v in env.items()}
        return lambda _env: frozen

    # ------------------------------------------------------------ obligations
    def oblige(self, name, goal, kind="post"):
        """Check an obligation (check phase only), then assume it."""
        if self._merge_depth and not self.guarded:
            return
        if kind == "safe" and getattr(self, "partial", False):
            if goal is not True:
                self.assume(goal)
            return
        if goal is True:
            if self.phase == "check" and kind != "safe":
                self.results.append((name, kind, "proved", "trivial", None))
            return
        if isinstance(goal, z3.BoolRef) and z3.is_true(z3.simplify(goal)):
            if self.phase == "check":
                self.results.append((name, kind, "proved", "simplify", None))
            return
        if self.phase == "check":
            r = self.check_valid(goal)
            detail = None
            if r.status != "proved":
                detail = self.describe(r)
                self.failures.append((name, kind, r, dict(self.old), list(self.callstack)))
            self.results.append((name, kind, r.status, r.by, detail))
        if kind in ("safe", "pre"):
            self.assume(goal)

    def describe(self, r):
        if r.model is None:
            return r.by
        out = []
        for d in r.model.decls()[:60]:
            out.append(f"{d.name()} = {r.model[d]}"[:160])
        return "\n".join(out)

    def guarded_obligations(self, cond, fn):
        """Evaluate fn under cond only to generate its obligations."""
        if self._merge_depth and not self.guarded:
            return

        def go():
            self.guarded += 1
            try:
                self.assume(cond)
                fn()
            finally:
                self.guarded -= 1

        self._with_tmp(go)

    def check_candidate(self, goal):
        return self.check_valid(goal, heavy=True, timeout_ms=self.cand_timeout).status == "proved"

    cand_timeout = 1500
    inst_rounds = 3

    # ------------------------------------------------------------ constants
    def constant(self, name):
        if name in self.const_values:
            return self.const_values[name]
        d = default_constants()
        if name in d:
            return lit_any(d[name])
        raise PyRaise("AttributeError", f"Constants.{name}")

    def config(self, name):
        if name in self.config_values:
            return self.config_values[name]
        d = default_config()
        if name in d:
            return lit_any(d[name])
        raise PyRaise("AttributeError", f"Config.{name}")

    # ------------------------------------------------------------ definitions
    def define(self, key, sort, base, facts, persist=False):
        """memoised named value: facts(x) are definitional (persist: unconditionally valid z3 facts)"""
        if key in self.defmemo:
            x = self.defmemo[key]
            if self.fact_log is not None and key in self.defall:
                self.fact_log.extend(self.defall[key][1])
            return x
        if persist and key in self.defall:      # met before, but its facts were temporary
            x, fs = self.defall[key]
        else:
            x = self.int(base) if sort == "int" else self.real(base)
            fs = list(facts(x))
            if persist:
                self.defall[key] = (x, fs)
        self.defmemo[key] = x
        for f in fs:
            self.assume(f)
        return x

    def divide(self, a, b):
        a, b = zr(a), zr(b)
        pb = _pure_num(z3.simplify(b))
        if pb is not None:
            if pb == 0:
                self.oblige("division by zero", z3.BoolVal(False), kind="safe")
                raise Abandon("division by zero")
            return z3.simplify(a * zr(Fraction(1) / pb))
        self.oblige("divisor is not zero", b != 0, kind="safe")

        def facts(q):
            return [z3.Implies(b != 0, q * b == a),
                    z3.Implies(z3.And(a >= 0, b > 0), q >= 0),
                    z3.Implies(z3.And(a > 0, b > 0), q > 0),
                    z3.Implies(z3.And(a <= 0, b > 0), q <= 0),
                    z3.Implies(z3.And(a == 0, b != 0), q == 0),
                    z3.Implies(z3.And(b > 0, a <= b), q <= 1),
                    z3.Implies(z3.And(b > 0, a < b), q < 1)]

        return self.define(("div", a.get_id(), b.get_id()), "real", "q", facts, persist=True)

    def minmax(self, op, a, b):
        isint = is_int(a) and is_int(b)
        if not is_sym(a) and not is_sym(b):
            return (min if op == "min" else max)(a, b)
        a, b = (zv(a), zv(b)) if isint else (zr(a), zr(b))
        if a.get_id() == b.get_id():
            return a
        if op == "min":
            facts = lambda m: [m <= a, m <= b, z3.Or(m == a, m == b)]
        else:
            facts = lambda m: [m >= a, m >= b, z3.Or(m == a, m == b)]
        key = (op,) + tuple(sorted((a.get_id(), b.get_id())))
        return self.define(key, "int" if isint else "real", op, facts, persist=True)

    # ------------------------------------------------------------ prefix sums
    def body_at(self, at, n):
        """at(J!) for an arbitrary 0 <= J! < n -> (term, self-contained?)"""
        j = z3.Int("J!")

        def go():
            self.assume(j >= 0)
            if n is not None:
                self.assume(j < zv(n))
            nf = len(self.facts)
            b = at(j)
            return b, len(self.facts) == nf
        return self._with_tmp(go)

    def prefix(self, at, n=None):
        """P(i) = at(0)+...+at(i-1), shared between structurally equal summands."""
        j = z3.Int("J!")
        b, pure = self.body_at(at, n)
        body = z3.simplify(zr(b))
        key = body.get_id()
        _KEEP.append([body])
        if key in self.prefixes:
            return self.prefixes[key]
        nm = self.fresh_name("P")
        f = z3.Function(nm, z3.IntSort(), z3.RealSort())

        def P(i):
            self.note_index(i)
            return f(zv(i))

        if pure:
            at = lambda i: z3.substitute(body, (j, zv(i)))
        P.at = at
        P.f = f
        P.body = body
        self.assume(f(z3.IntVal(0)) == 0)
        self.foralls.append(PrefixAxiom(f, at))
        self.prefixes[key] = P
        return P

    def merge_term(self, at, j):
        return at(j)


class PrefixAxiom:
    """P(i+1) = P(i) + at(i) for i >= 0, instantiated at i and i-1."""

    def __init__(self, f, at):
        self.f, self.at = f, at

    def inst(self, i):
        i = zv(i)
        return z3.And(z3.Implies(i >= 0, self.f(i + 1) == self.f(i) + zr(self.at(i))),
                      z3.Implies(i >= 1, self.f(i) == self.f(i - 1) + zr(self.at(z3.simplify(i - 1)))))


_DC = {}


def _flatten(path):
    import tomllib
    if path not in _DC:
        with open(path, "rb") as f:
            t = tomllib.load(f)
        flat = {}

        def rec(d):
            for k, v in d.items():
                if isinstance(v, dict):
                    rec(v)
                else:
                    flat[k] = v

        rec(t)
        _DC[path] = flat
    return _DC[path]


REPO = os.environ.get("PYVC_REPO", "/repo")


def default_constants():
    return _flatten(os.path.join(REPO, "constants.toml"))


def default_config():
    return _flatten(os.path.join(REPO, "config.toml"))


def lit_any(v):
    if isinstance(v, list):
        return [lit_any(x) for x in v]
    return lit(v)
