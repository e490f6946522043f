"""C09: densification."""
from .base import *

MOD = "cosipy.modules.densification"
MOVED = ("height", "ice_fraction", "liquid_water_content")


def snow_on_ice(o, old, S):
    return [("snow layers on ice layers", o.and_(S >= 0, S <= old.n)),
            ("snow layers are the top S", o.forall(0, old.n, lambda i: o.iff(is_snow(o, old, i), i < S)))]


def count_snow(o, old):
    k = 0
    while k < old.n and is_snow(o, old, k):
        k += 1
    return k


class Densification(Spec):
    """only compacts, on any slope, whatever the method"""
    prop = "C09"
    module, qual = MOD, "densification"
    args = (("SLOPE", "real"), ("dt", "real"))
    cases = tuple({"densification_method": m} for m in ("Boone", "Vionnet", "empirical", "constant"))
    modifies = MOVED
    functionals = ()
    ghosts = int_ghosts = ("S",)

    def ghost_values(self, o, old, a):
        return {"S": count_snow(o, old)}

    def pivots(self, o, old, a):
        return [a.S]

    def requires(self, o, old, a):
        return valid_layers(o, old) + snow_on_ice(o, old, a.S) + [
            ("time step > 0", o.pos(a.dt)),
            ("slope in [0, 90)", o.and_(o.sle(o.num(0), a.SLOPE), o.slt(a.SLOPE, o.num(90))))]

    def overburden(self, o):
        return o.const("densification_method") in ("Boone", "Vionnet")

    def per_layer(self, o, old):
        out = [
            ("no layer becomes thicker", lambda c, i: o.le(c.h(i), old.h(i))),
            ("no layer's ice fraction decreases", lambda c, i: o.le(old.f(i), c.f(i))),
            ("water content does not become negative", lambda c, i: o.le(o.num(0), c.w(i))),
            ("dry layers stay dry", lambda c, i: o.implies(o.ieq(old.w(i), 0), o.ieq(c.w(i), 0))),
        ]
        if self.overburden(o):
            out.append(("layers at or below the minimum layer height unchanged", lambda c, i: o.implies(
                o.sle(old.h(i), o.const("minimum_snow_layer_height")), same_rec(o, c, i, old, i, MOVED))))
        if o.const("densification_method") == "constant":
            out.append(("the constant method changes nothing", lambda c, i: same_rec(o, c, i, old, i, MOVED)))
        return out

    def ensures(self, o, old, new, a, res):
        out = [(nm, o.forall(0, old.n, lambda i, f=f: f(new, i))) for nm, f in self.per_layer(o, old)]
        out.append(("ice layers unchanged", o.forall(a.S, old.n, lambda i: same_rec(o, new, i, old, i, MOVED))))
        return out

    def invgen(self, o, L):
        if not L.counted:
            return
        old = L.old
        for nm, f in self.per_layer(o, old):
            yield nm, lambda f=f: (lambda c: o.forall(0, L.k, lambda i: f(c, i)))(L.col())
        yield "layers to come untouched", lambda: (lambda c: o.forall(L.k, old.n, lambda i: same_rec(o, c, i, old, i, MOVED)))(L.col())
        for nm, cur, v0 in L.reals():
            yield f"{nm} does not become negative", lambda cur=cur: o.le(o.num(0), cur())

    def gen(self, rng):
        c = rand_column(rng, 1, 8, snow_on_ice=True)
        if rng.random() < 0.4:
            for l in c:
                l[2] = 0.0
        return {"layers": c, "props": rand_props(rng), "args": {"SLOPE": rng.choice([0.0, rng.uniform(0, 89.9)]), "dt": rng.choice([3600, 600, 86400 * rng.random()])},
                "consts": dict(rng.choice(self.cases))}


def relative_change(o, old, i, M):
    """the overburden methods' relative height change of layer i under the stress term M"""
    T0 = o.const("zero_temperature")
    rho_i = rho(o, old, i)
    if o.const("densification_method") == "Boone":
        eta = o.num(3.7e7) * o.exp(o.num(0.081) * (T0 - old.T(i)) + o.num(0.018) * rho_i)
        return o.div(M * o.num(9.81), eta) + o.num(2.8e-6) * o.exp(
            -o.num(0.042) * (T0 - old.T(i)) - o.num(0.046) * o.max(o.num(0), rho_i - 150))
    f1 = o.div(o.num(1), 1 + 60 * o.div(old.w(i), old.h(i)))
    eta = f1 * o.num(7.62237e6) * o.div(rho_i, o.num(250)) * o.exp(o.num(0.1) * (o.num(273.14) - old.T(i)) + o.num(0.023) * rho_i)
    return o.div(M, eta)


class DensificationOrder(Densification):
    """a deeper, otherwise identical snow layer compacts at least as much"""
    cases = Densification.cases[:2]
    ghosts = int_ghosts = ("S", "i", "j")

    def ghost_values(self, o, old, a):
        S = count_snow(o, old)
        for i in range(S):
            for j in range(i + 1, S):
                if all(old._get(k, i) == old._get(k, j) for k in FIELDS[:4]):
                    return {"S": S, "i": i, "j": j}
        return {"S": S, "i": 0, "j": 0}

    def requires(self, o, old, a):
        return super().requires(o, old, a) + [
            ("two snow layers", o.and_(0 <= a.i, a.i < a.j, a.j < a.S)),
            ("otherwise identical", o.and_(*[o.ieq(old._get(k, a.i), old._get(k, a.j)) for k in FIELDS[:4]]))]

    def ensures(self, o, old, new, a, res):
        return [("the deeper layer compacts at least as much", o.le(new.h(a.j), new.h(a.i)))]

    def invgen(self, o, L):
        if not L.counted:
            return
        old, a = L.old, L.args
        yield "layers to come untouched", lambda: (lambda c: o.forall(L.k, old.n, lambda i: same_rec(o, c, i, old, i, MOVED)))(L.col())
        for nm, cur, v0 in L.reals():
            yield f"{nm} does not become negative", lambda cur=cur: o.le(o.num(0), cur())
            yield f"upper layer compacted no more than {nm} explains now", lambda cur=cur: o.implies(
                L.k > a.i, o.le((1 - relative_change(o, old, a.i, cur()) * a.dt) * old.h(a.i), L.col().h(a.i)))
        yield "upper layer not thicker", lambda: o.le(L.col().h(a.i), old.h(a.i))
        yield "upper layer untouched if thin", lambda: o.implies(
            o.sle(old.h(a.i), o.const("minimum_snow_layer_height")), o.eq(L.col().h(a.i), old.h(a.i)))
        yield "order of the two layers", lambda: o.implies(L.k > a.j, o.le(L.col().h(a.j), L.col().h(a.i)))

    def gen(self, rng):
        inp = super().gen(rng)
        c = rand_column(rng, 3, 7, snow_on_ice=True, snow=rng.randint(2, 3))
        S = next((i for i, l in enumerate(c) if l[3] > 0.98), len(c))
        if S >= 2:
            i, j = sorted(rng.sample(range(S), 2))
            c[j] = list(c[i])
        inp["layers"] = c
        return inp
