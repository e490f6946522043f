"""C19: layer properties and profiles (cosipy/cpkernel/node.py, grid.py)"""
from .base import *

GRID = "cosipy.cpkernel.grid"


def conductivity(o, c, i):
    f, w = c.f(i), c.w(i)
    if o.const("thermal_conductivity_method") == "bulk":
        return f * o.const("k_i") + air(o, f, w) * o.const("k_a") + w * o.const("k_w")
    q = o.div(rho(o, c, i), o.num(1000))
    return o.num(0.021) + o.num(2.5) * q * q


def cold_content(o, c, i):
    return -(specific_heat(o, c.f(i), c.w(i)) * rho(o, c, i) * c.h(i) * (c.T(i) - o.const("zero_temperature")))


VALUE = {
    "temperature": lambda o, c, i: c.T(i),
    "height": lambda o, c, i: c.h(i),
    "ice_fraction": lambda o, c, i: c.f(i),
    "liquid_water_content": lambda o, c, i: c.w(i),
    "refreeze": lambda o, c, i: c.r(i),
    "density": rho,
    "specific_heat": lambda o, c, i: specific_heat(o, c.f(i), c.w(i)),
    "irreducible_water_content": lambda o, c, i: irr(o, c.f(i)),
    "porosity": lambda o, c, i: 1 - c.f(i) - c.w(i),
    "cold_content": cold_content,
    "thermal_conductivity": conductivity,
    "thermal_diffusivity": lambda o, c, i: o.div(conductivity(o, c, i), rho(o, c, i) * specific_heat(o, c.f(i), c.w(i))),
}
BOTH = ({}, {"thermal_conductivity_method": "empirical"})


class _Props(Spec):
    prop = "C19"
    module = GRID
    functionals = ()
    search_seconds = 1
    budget = 100

    def _column(self, rng):
        return {"layers": rand_column(rng, 1, 8), "props": rand_props(rng), "args": {}}

    def requires(self, o, old, a):
        return valid_layers(o, old)


def _node(name):
    class S(_Props):
        qual = f"Grid.get_node_{name}"
        args = (("idx", "int"),)
        result = "real"
        cases = BOTH if "thermal" in name else ({},)

        def requires(self, o, old, a):
            return valid_layers(o, old) + [("0 <= idx < n", o.and_(a.idx >= 0, a.idx < old.n))]

        def ensures(self, o, old, new, a, res):
            i = a.idx
            out = [(f"{name} of the layer", o.eq(res, VALUE[name](o, old, i)))]
            if name == "irreducible_water_content":
                out += [("irreducible water content is non-negative", o.sle(o.num(0), res)),
                        ("zero for ice fractions above 0.812", o.implies(o.slt(o.num(0.812), old.f(i)), o.eq(res, o.num(0))))]
            if name == "density":
                out += [("density is at least the ice part", o.ge(res, old.f(i) * o.const("ice_density")))]
            return out

        def gen(self, rng):
            x = self._column(rng)
            x["args"]["idx"] = rng.randint(0, len(x["layers"]) - 1)
            if self.cases != ({},) and rng.random() < 0.4:
                x["consts"] = {"thermal_conductivity_method": "empirical"}
            return x
    return S


def _profile(name):
    class S(_Props):
        qual = f"Grid.get_{name}"
        cases = BOTH if "thermal" in name else ({},)

        def ensures(self, o, old, new, a, res):
            r = o.seq(res)
            return [("one value per layer", o.ieq(r.n, old.n)),
                    (f"every layer's own {name}, in order", o.forall(0, old.n, lambda i: o.eq(r.at(i), VALUE[name](o, old, i))))]

        def gen(self, rng):
            x = self._column(rng)
            if self.cases != ({},) and rng.random() < 0.4:
                x["consts"] = {"thermal_conductivity_method": "empirical"}
            return x
    return S


def _set_node(name):
    class S(_Props):
        qual = f"Grid.set_node_{name}"
        args = (("idx", "int"), ("value", "real"))
        modifies = (name,)

        def requires(self, o, old, a):
            return valid_layers(o, old) + [("0 <= idx < n", o.and_(a.idx >= 0, a.idx < old.n))]

        def ensures(self, o, old, new, a, res):
            return [("the layer has the value", o.eq(new._get(name, a.idx), a.value)),
                    ("layers above unchanged", o.forall(0, a.idx, lambda i: o.eq(new._get(name, i), old._get(name, i)))),
                    ("layers below unchanged", o.forall(a.idx + 1, old.n, lambda i: o.eq(new._get(name, i), old._get(name, i))))]

        def gen(self, rng):
            x = self._column(rng)
            x["args"] = {"idx": rng.randint(0, len(x["layers"]) - 1), "value": rng.uniform(0.01, 300)}
            return x
    return S


def _set_profile(name):
    class S(_Props):
        qual = f"Grid.set_{name}"
        args = (("values", "arr"),)
        modifies = (name,)

        def requires(self, o, old, a):
            return super().requires(o, old, a) + [("one value per layer", o.ieq(o.seq(a.values).n, old.n))]

        def ensures(self, o, old, new, a, res):
            v = o.seq(a.values)
            return [("every layer gets its own value", o.forall(0, old.n, lambda i: o.eq(new._get(name, i), v.at(i))))]

        def invgen(self, o, L):
            if L.counted:
                v = o.seq(L.args.values)
                yield "set so far", lambda: (lambda c: o.forall(0, L.k, lambda i: o.eq(c._get(name, i), v.at(i))))(L.col())

        def gen(self, rng):
            x = self._column(rng)
            x["args"] = {"values": [rng.uniform(0.01, 300) for _ in x["layers"]]}
            return x
    return S


for _nm in VALUE:
    _s = _node(_nm)
    _s.__name__ = _s.__qualname__ = "Node_" + _nm
    globals()[_s.__name__] = _s
    _s = _profile(_nm)
    _s.__name__ = _s.__qualname__ = "Profile_" + _nm
    globals()[_s.__name__] = _s
for _nm in FIELDS:
    for _f, _p in ((_set_node, "SetNode_"), (_set_profile, "SetProfile_")):
        _s = _f(_nm)
        _s.__name__ = _s.__qualname__ = _p + _nm
        globals()[_s.__name__] = _s
del _s, _f


class NodeDepth(_Props):
    qual = "Grid.get_node_depth"
    args = (("idx", "int"),)
    result = "real"
    functionals = ("H",)

    def requires(self, o, old, a):
        return valid_layers(o, old) + [("0 <= idx < n", o.and_(a.idx >= 0, a.idx < old.n))]

    def ensures(self, o, old, new, a, res):
        return [("mid-layer depth", o.eq(res, o.prefix(old, old.h, a.idx) + o.div(old.h(a.idx), o.num(2))))]

    def invgen(self, o, L):
        if L.counted:
            for nm, cur, v0 in L.reals():
                yield f"{nm} sums the layers above", lambda cur=cur, v0=v0: o.eq(cur() - v0, o.prefix(L.old, L.old.h, L.k))

    def gen(self, rng):
        x = self._column(rng)
        x["args"]["idx"] = rng.randint(0, len(x["layers"]) - 1)
        return x


class DepthProfile(_Props):
    qual = "Grid.get_depth"
    functionals = ("H",)

    def ensures(self, o, old, new, a, res):
        r = o.seq(res)
        half = o.num(0.5)
        return [("one value per layer", o.ieq(r.n, old.n)),
                ("mid-layer depths", o.forall(0, old.n, lambda i: o.eq(r.at(i), o.prefix(old, old.h, i) + half * old.h(i)))),
                ("increasing downwards", o.forall(0, old.n - 1, lambda i: o.slt(r.at(i), r.at(i + 1) if not o.symbolic else r.at(i + 1)))),
                ("inside the column", o.forall(0, old.n, lambda i: o.and_(o.pos(r.at(i)), o.slt(r.at(i), old.H))))]

    def gen(self, rng):
        return self._column(rng)


class _Kinds(_Props):
    functionals = ("H",)
    ghosts = ("S",)
    int_ghosts = ("S",)

    def ghost_values(self, o, old, a):
        s = 0
        while s < old.n and is_snow(o, old, s):
            s += 1
        return {"S": s}

    def requires(self, o, old, a):
        return valid_layers(o, old) + [
            ("snow layers on ice layers", o.and_(a.S >= 0, a.S <= old.n)),
            ("snow layers are the top S", o.forall(0, old.n, lambda i: o.iff(is_snow(o, old, i), i < a.S)))]

    def pivots(self, o, old, a):
        return [a.S]

    def gen(self, rng):
        return {"layers": rand_column(rng, 1, 8, snow_on_ice=True), "props": rand_props(rng), "args": {}}


class SnowHeights(_Kinds):
    qual = "Grid.get_snow_heights"

    def ensures(self, o, old, new, a, res):
        r = o.seq(res)
        return [("one value per snow layer", o.ieq(r.n, a.S)),
                ("thicknesses of the snow layers", o.forall(0, a.S, lambda i: o.eq(r.at(i), old.h(i))))]


class NumberSnowLayers(_Kinds):
    qual = "Grid.get_number_snow_layers"
    result = "int"

    def ensures(self, o, old, new, a, res):
        return [("number of snow layers", o.eq(res, a.S))]


class TotalSnowHeight(_Kinds):
    qual = "Grid.get_total_snowheight"
    result = "real"

    def ensures(self, o, old, new, a, res):
        return [("sum of the snow thicknesses", o.eq(res, o.prefix(old, old.h, a.S)))]


class TotalHeight(_Kinds):
    qual = "Grid.get_total_height"
    result = "real"

    def ensures(self, o, old, new, a, res):
        return [("sum of all thicknesses", o.eq(res, old.H))]


class SnowAndIceHeight(_Kinds):
    """snow height plus ice height equals total height"""
    qual = "Grid.get_ice_heights"

    def ensures(self, o, old, new, a, res):
        return [("ice thicknesses sum to total height minus snow height",
                 o.eq(o.ssum(res), old.H - o.prefix(old, old.h, a.S)))]


class NumberLayers(_Props):
    qual = "Grid.get_number_layers"
    result = "int"

    def ensures(self, o, old, new, a, res):
        return [("number of layers", o.ieq(res, old.n))]

    def gen(self, rng):
        return self._column(rng)


class NodeFromDryDensity(Spec):
    """a layer created from a dry density"""
    prop = "C19"
    module, qual = "cosipy.cpkernel.node", "Node"
    has_grid = False
    args = (("height", "real"), ("snow_density", "real"), ("temperature", "real"), ("lwc", "real"), ("ice_fraction", "none"))
    search_seconds = 1

    def requires(self, o, old, a):
        return [("0 < density <= ice density", o.and_(o.pos(a.snow_density), o.sle(a.snow_density, o.const("ice_density")))),
                ("thickness > 0", o.pos(a.height)), ("0 <= water", o.sle(o.num(0), a.lwc))]

    def ensures(self, o, old, new, a, res):
        f = o.field(res, "ice_fraction")
        dry = density(o, f, o.num(0))
        return [("thickness", o.eq(o.field(res, "height"), a.height)),
                ("temperature", o.eq(o.field(res, "temperature"), a.temperature)),
                ("water content", o.eq(o.field(res, "liquid_water_content"), a.lwc)),
                ("no refreezing yet", o.eq(o.field(res, "refreeze"), o.num(0))),
                ("dry density as given (0.01 kg m-3)", o.and_(o.le(a.snow_density - o.num(0.01), dry), o.le(dry, a.snow_density + o.num(0.01)))),
                ("ice fraction at most one", o.le(f, o.num(1)))]

    def gen(self, rng):
        return {"args": {"height": rng.uniform(0.001, 2), "snow_density": rng.uniform(1, 917), "temperature": rng.uniform(240, 273.16),
                         "lwc": rng.choice([0.0, rng.uniform(0, 0.3)]), "ice_fraction": None}}


class NodeFromIceFraction(NodeFromDryDensity):
    args = (("height", "real"), ("snow_density", "real"), ("temperature", "real"), ("lwc", "real"), ("ice_fraction", "real"))

    def requires(self, o, old, a):
        return []

    def ensures(self, o, old, new, a, res):
        return [("thickness", o.eq(o.field(res, "height"), a.height)),
                ("temperature", o.eq(o.field(res, "temperature"), a.temperature)),
                ("water content", o.eq(o.field(res, "liquid_water_content"), a.lwc)),
                ("ice fraction as given", o.eq(o.field(res, "ice_fraction"), a.ice_fraction)),
                ("no refreezing yet", o.eq(o.field(res, "refreeze"), o.num(0)))]

    def gen(self, rng):
        x = super().gen(rng)
        x["args"]["ice_fraction"] = rng.uniform(0.01, 1)
        return x
