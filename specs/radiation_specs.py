"""C07: penetrating shortwave radiation."""
from .base import *

MOD = "cosipy.modules.penetratingRadiation"


class PenetrationEnergy(Spec):
    """heating, melting and removal of layers by penetrating radiation"""
    prop = "C07"
    module, qual = MOD, "penetrating_radiation"
    args = (("SWnet", "real"), ("dt", "real"))
    modifies = ("#struct",)
    functionals = ("H",)
    bounded_only = True
    search_seconds = 12
    note = "heat and melt per layer against the closed form, executed on random columns"

    def requires(self, o, old, a):
        return valid_layers(o, old) + [
            ("no layer above melting", o.forall(0, old.n, lambda i: o.sle(old.T(i), o.const("zero_temperature")))),
            ("net shortwave >= 0", o.sle(o.num(0), a.SWnet)), ("time step > 0", o.pos(a.dt))]

    # ---- what each layer receives
    def entering(self, o, old, a):
        snow = o.sle(rho(o, old, 0), o.const("snow_ice_threshold"))
        return o.ite(snow, o.num(0.1), o.num(0.2)) * a.SWnet

    def depth(self, o, old, i):
        return o.num(0) if i == 0 else o.prefix(old, old.h, i - 1) + old.h(i - 1) / 2

    def left(self, o, old, i):
        """fraction of the flux that passes depth point i (1 at the surface)"""
        snow = o.sle(rho(o, old, 0), o.const("snow_ice_threshold"))
        d = self.depth(o, old, i)
        return o.ite(snow, o.exp(-o.num(17.1) * d), o.exp(-o.num(2.5) * d))

    def absorbed(self, o, old, a, i):
        return o.named("absorbed", i, lambda i: self.entering(o, old, a) * (self.left(o, old, i) - self.left(o, old, i + 1)))

    def trial(self, o, old, a, i):
        """temperature of layer i if nothing melted"""
        return o.named("trial", i, lambda i: old.T(i) + o.div(self.absorbed(o, old, a, i), rho(o, old, i) * o.const("spec_heat_ice")) * o.div(a.dt, old.h(i)))

    def melt(self, o, old, a, i):
        """m w.e. melted in layer i"""
        A = o.div(o.const("spec_heat_ice") * o.const("ice_density"), o.const("water_density") * o.const("lat_heat_melting"))
        return (lambda i: A * o.max(o.num(0), self.trial(o, old, a, i) - o.const("zero_temperature")) * old.f(i) * old.h(i))(i)

    def gone(self, o, old, a, i):
        """layer i melts entirely: its excess warming is worth the latent heat of all its ice"""
        return o.sle(self.kept(o, old, a, i), o.num(0))

    def kept(self, o, old, a, i):
        """share of the thickness of layer i that does not melt (negative: more than all of it)"""
        return (lambda i: o.num(1) - o.div(o.const("spec_heat_ice"), o.const("lat_heat_melting")) * o.max(
            o.num(0), self.trial(o, old, a, i) - o.const("zero_temperature")))(i)

    def stays(self, o, old, a, i):
        return o.slt(o.num(0), self.kept(o, old, a, i))

    def per_layer(self, o, old, a):
        T0 = o.const("zero_temperature")
        ri, rw = o.const("ice_density"), o.const("water_density")
        hot = lambda i: o.slt(T0, self.trial(o, old, a, i))
        stays = lambda i: self.stays(o, old, a, i)
        return [
            ("never cools a layer", lambda c, i: o.le(old.T(i), c.T(i))),
            ("heated to melting: exactly at the melting temperature", lambda c, i: o.implies(o.and_(hot(i), stays(i)), o.eq(c.T(i), T0))),
            ("below melting: absorbs all its heat", lambda c, i: o.implies(o.not_(hot(i)), o.and_(
                o.eq(c.T(i), self.trial(o, old, a, i)), o.eq(c.h(i), old.h(i)), o.eq(c.w(i), old.w(i))))),
            ("ice mass lost equals water mass gained", lambda c, i: o.implies(stays(i), o.eq(
                (old.h(i) - c.h(i)) * old.f(i) * ri, (c.h(i) * c.w(i) - old.h(i) * old.w(i)) * rw))),
            ("melt is the excess energy over the latent heat", lambda c, i: o.implies(stays(i), o.eq(
                (old.h(i) - c.h(i)) * old.f(i) * ri, self.melt(o, old, a, i) * rw))),
            ("remaining layers keep a positive thickness", lambda c, i: o.implies(stays(i), o.pos(c.h(i)))),
            ("ice fraction and refreezing record unchanged", lambda c, i: o.and_(o.eq(c.f(i), old.f(i)), o.eq(c.r(i), old.r(i)))),
        ]

    def heat(self, o, old, a, i):
        """heat taken up by layer i (warming and melting), J m-2"""
        return (lambda i: rho(o, old, i) * o.const("spec_heat_ice") * old.h(i) * (o.min(self.trial(o, old, a, i), o.const("zero_temperature")) - old.T(i))
                + self.melt(o, old, a, i) * o.const("water_density") * o.const("lat_heat_melting"))(i)

    def ensures(self, o, old, new, a, res):
        melt, Si = res[0], res[1]
        n = old.n
        if True:
            keep = [i for i in range(n) if i == n - 1 or not self.gone(o, old, a, i)]
            removed = lambda i: self.gone(o, old, a, i) and i < n - 1
            if len(keep) != new.n:
                # a layer within rounding of melting entirely may go either way
                near = any(abs(self.kept(o, old, a, i)) < 1e-9 for i in range(n - 1))
                return [("only layers that melt entirely are removed", near)]
            if any(abs(self.trial(o, old, a, i) - o.const("zero_temperature")) < 1e-6 or abs(self.kept(o, old, a, i)) < 1e-6 for i in range(n - 1)):
                return [("deepest layer", same_rec(o, new, new.n - 1, old, n - 1))]
            at = {i: j for j, i in enumerate(keep)}
            c = Col(n, lambda k, i: new._get(k, at[i]) if i in at else old._get(k, i), new.tot, new.number_nodes, new.nsh, new.nst, new.ost)
        out = [(nm, o.forall(0, n - 1, lambda i, f=f: f(c, i))) for nm, f in self.per_layer(o, old, a)]
        out += [
            ("the deepest layer is untouched", same_rec(o, c, n - 1, old, n - 1)),
            ("only layers that melt entirely are removed, and those are", o.forall(0, n, lambda i: o.iff(
                removed(i), o.and_(i < n - 1, self.gone(o, old, a, i))))),
            ("penetrating flux is 10 % (snow) or 20 % (ice) of net shortwave", o.eq(Si, self.entering(o, old, a))),
            ("reported melt is the ice melted", o.eq(melt, o.prefix(old, lambda i: self.melt(o, old, a, i), n - 1))),
            ("reported melt is not negative", o.le(o.num(0), melt)),
            ("heat absorbed does not exceed the flux", o.le(o.prefix(old, lambda i: self.heat(o, old, a, i), n - 1), Si * a.dt
                + 1e-12 * sum(rho(o, old, i) * o.const("spec_heat_ice") * old.h(i) * old.T(i) for i in range(n)))),     # rounding of T
        ]
        return out

    def gen(self, rng):
        c = rand_column(rng, 1, 8, snow_on_ice=rng.random() < 0.7)
        for l in c:
            l[1] = rng.choice([273.16, 273.16 - rng.expovariate(1.0), l[1]])
            if rng.random() < 0.3:
                l[0] = rng.uniform(0.0005, 0.01)
        return {"layers": c, "props": rand_props(rng), "args": {"SWnet": rng.choice([0.0, rng.uniform(0, 900), rng.uniform(0, 100)]),
                                                                "dt": rng.choice([3600, 600, 86400])}}


class Penetration(PenetrationEnergy):
    """per layer: never cooled, at the melting point if anything melted, ice lost is water gained, removals, flux fraction"""
    bounded_only = False
    functionals = ()
    uses = ()
    budget = 500
    timeout_ms = 8000
    search_seconds = 5
    auto_invariants = False

    def layer(self, o, old, c, i):
        T0, ri, rw = o.const("zero_temperature"), o.const("ice_density"), o.const("water_density")
        return [("never cools a layer", o.le(old.T(i), c.T(i))),
                ("never heats a layer above melting", o.le(c.T(i), T0)),
                ("a layer that melted is at the melting temperature", o.or_(o.and_(o.eq(c.h(i), old.h(i)), o.eq(c.w(i), old.w(i))), o.eq(c.T(i), T0))),
                ("no layer gets thicker or vanishes", o.and_(o.pos(c.h(i)), o.le(c.h(i), old.h(i)))),
                ("ice mass lost equals water mass gained", o.eq((old.h(i) - c.h(i)) * old.f(i) * ri, (c.h(i) * c.w(i) - old.h(i) * old.w(i)) * rw)),
                ("ice fraction unchanged", o.eq(c.f(i), old.f(i)))]

    # ---- removal of layers: contract of remove_node (C20) at this call
    def stubs(self, o, ctx):
        import z3
        from pyvc.prove import view
        from pyvc.loops import havoc_list, sum_lemmas
        from pyvc.values import Arr, zb, zv, Forall, Unsupported

        def remove_node(I, args, kw):
            grid = args[0]
            idx = args[1] if len(args) > 1 else kw.get("idx")
            old, a = ctx.spec_old, ctx.spec_args
            c = view(grid)
            if isinstance(idx, list):
                n, at = len(idx), lambda i: idx[i]
                member = lambda i: z3.Or([zv(i) == zv(x) for x in idx]) if idx else z3.BoolVal(False)
                asc = z3.And([zv(x) < zv(y) for x, y in zip(idx, idx[1:])]) if idx else z3.BoolVal(True)
                rng = z3.And([z3.And(zv(x) >= 0, zv(x) < zv(c.n)) for x in idx]) if idx else z3.BoolVal(True)
            elif isinstance(idx, Arr) and idx.member is not None:
                n, at, member = idx.n, idx.at, idx.member
                asc = Forall(0, zv(n) - 1, lambda i: zv(at(i)) < zv(at(i + 1)))
                rng = Forall(0, n, lambda i: z3.And(zv(at(i)) >= 0, zv(at(i)) < zv(c.n)))
            else:
                raise Unsupported("remove_node of an unknown list of layers")
            ctx.oblige("a list of layers to remove is given", zv(n) >= 1, kind="pre")
            ctx.oblige("layers to remove are valid", rng, kind="pre")
            ctx.oblige("layers to remove are distinct", asc, kind="pre")
            ctx.before_removal = (c, member, n)
            havoc_list(ctx, grid.attrs["grid"], FIELDS, True)
            I.note_write(grid.attrs["grid"], "#struct")
            I.note_write(grid, "number_nodes")
            grid.attrs["number_nodes"] = ctx.int("nn")
            ctx.assume(zv(grid.attrs["number_nodes"]) == zv(grid.attrs["grid"].n))
            sum_lemmas(ctx, grid.attrs["grid"])
            return None

        ctx.before_removal = None
        ctx.path_start = lambda: setattr(ctx, "before_removal", None)
        return {"Grid.remove_node": remove_node}

    def ensures(self, o, old, new, a, res):
        if not o.symbolic:
            return PenetrationEnergy.ensures(self, o, old, new, a, res)
        melt, Si = res[0], res[1]
        n = old.n
        rem = o.ctx.before_removal
        c = rem[0] if rem else new
        removed = (lambda i: rem[1](i)) if rem else (lambda i: False)
        names = [nm for nm, _ in self.layer(o, old, old, 0)]
        out = [(nm, o.forall(0, n - 1, lambda i, nm=nm: dict(self.layer(o, old, c, i))[nm])) for nm in names]
        out += [("the deepest layer is untouched", same_rec(o, c, n - 1, old, n - 1)),
                ("the deepest layer is not removed", o.forall(0, n, lambda i: o.implies(removed(i), i < n - 1))),
                ("a removed layer was not changed before", o.forall(0, n, lambda i: o.implies(removed(i), same_rec(o, c, i, old, i)))),
                ("penetrating flux is 10 % (snow) or 20 % (ice) of net shortwave", o.eq(Si, self.entering(o, old, a))),
                ("reported melt is not negative", o.le(o.num(0), melt))]
        return out

    def invgen(self, o, L):
        if not L.counted:
            return
        old, a = L.old, L.args
        for nm, _ in self.layer(o, old, old, 0):
            yield nm, lambda nm=nm: (lambda c: o.forall(0, L.k, lambda i: dict(self.layer(o, old, c, i))[nm]))(L.col())
        yield "layers to come untouched", lambda: (lambda c: o.forall(L.k, old.n, lambda i: same_rec(o, c, i, old, i)))(L.col())
        for nm, arr in L.arrays():
            yield f"{nm} lists layers already visited", lambda arr=arr: (lambda r: o.and_() if r.member is None else o.forall(
                0, old.n, lambda i: o.implies(r.member(i), o.and_(i < L.k, r.n >= 1))))(arr())
            yield f"{nm} lists unchanged layers", lambda arr=arr: (lambda r, c: o.and_() if r.member is None else o.forall(
                0, old.n, lambda i: o.implies(r.member(i), same_rec(o, c, i, old, i))))(arr(), L.col())
            yield f"{nm} lists its members", lambda arr=arr: (lambda r: o.and_() if r.member is None else o.forall(
                0, r.n, lambda i: o.and_(r.at(i) >= 0, r.at(i) < L.k)))(arr())
            yield f"{nm} ascends", lambda arr=arr: (lambda r: o.and_() if r.member is None else o.forall(
                0, r.n - 1, lambda i: r.at(i) < r.at(i + 1)))(arr())
        for nm, cur, v0 in L.reals():
            yield f"{nm} is not negative", lambda cur=cur: o.le(o.num(0), cur())
