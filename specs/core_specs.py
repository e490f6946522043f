"""C15, C16, C17: the time loop of one grid point (cosipy/cpkernel/cosipy_core.py).

The callees that act on the column are known here by their contracts only: each
returns arbitrary values (recorded as the step's ghost values) and leaves the
column in an arbitrary new state (a new version).  What is proved is what
cosipy_core does with them, at every step of a series of any length."""
import ast

from .base import *

CORE = "cosipy.cpkernel.cosipy_core"

# what each position of cosipy_core's result means (the interface of run_cosipy)
RESULT = ("indY", "indX", "RESTART", "RAIN", "SNOWFALL", "LWin", "LWout", "H", "LE", "B", "QRR", "MB", "surfMB", "Q", "SNOWHEIGHT",
          "TOTALHEIGHT", "TS", "ALBEDO", "NLAYERS", "ME", "intMB", "EVAPORATION", "SUBLIMATION", "CONDENSATION", "DEPOSITION",
          "REFREEZE", "subM", "Z0", "surfM", "new_snow_height", "new_snow_timestamp", "old_snow_timestamp", "MOL", "LAYER_HEIGHT",
          "LAYER_RHO", "LAYER_T", "LAYER_LWC", "LAYER_CC", "LAYER_POROSITY", "LAYER_ICE_FRACTION", "LAYER_IRREDUCIBLE_WATER",
          "LAYER_REFREEZE", "stake_names", "stat", "df_eval")
SERIES = RESULT[3:33]
PROFILES = {"LAYER_HEIGHT": "get_height", "LAYER_RHO": "get_density", "LAYER_T": "get_temperature",
            "LAYER_LWC": "get_liquid_water_content", "LAYER_CC": "get_cold_content", "LAYER_POROSITY": "get_porosity",
            "LAYER_ICE_FRACTION": "get_ice_fraction", "LAYER_IRREDUCIBLE_WATER": "get_irreducible_water_content",
            "LAYER_REFREEZE": "get_refreeze"}
PROPS = ("new_snow_height", "new_snow_timestamp", "old_snow_timestamp")
# update_surface_temperature's results, in order
UST = ("fun", "TS", "LWin", "LWout", "H", "LE", "B", "QRR", "rho", "Lv", "MOL", "Cs_t", "Cs_q", "q0", "q2")
UST_ARGS = ("dt", "z", "z0", "T2", "RH2", "PRES", "SWnet", "U2", "RAIN", "SLOPE", "LWin", "N")
RESTART_PROFILES = {"LAYER_HEIGHT": "get_height", "LAYER_RHO": "get_density", "LAYER_T": "get_temperature",
                    "LAYER_LWC": "get_liquid_water_content", "LAYER_IF": "get_ice_fraction"}
RESTART_SCALARS = {"NLAYERS": "get_number_layers", "NEWSNOWHEIGHT": "new_snow_height",
                   "NEWSNOWTIMESTAMP": "new_snow_timestamp", "OLDSNOWTIMESTAMP": "old_snow_timestamp"}

PRECIP = ({"precip": "both", "TP": False}, {"precip": "both", "TP": True}, {"precip": "snow", "TP": False}, {"precip": "total", "TP": False})
LONGWAVE = ({"lw": "both", "forceN": False}, {"lw": "both", "forceN": True}, {"lw": "LWin", "forceN": False}, {"lw": "N", "forceN": False})


def inputs_present(case):
    names = {"T2", "RH2", "PRES", "G", "U2"}
    names |= {"both": {"SNOWFALL", "RRR"}, "snow": {"SNOWFALL"}, "total": {"RRR"}}[case["precip"]]
    names |= {"both": {"LWin", "N"}, "LWin": {"LWin"}, "N": {"N"}}[case["lw"]]
    return names


def fresh_density(o, method, const, T, U):
    if method == "constant":
        return const
    return o.max(109 + 6 * (T - o.num(273.16)) + 26 * o.sqrt(U), o.num(50))


class _Core(Spec):
    module, qual = CORE, "cosipy_core"
    has_grid = False
    functionals = ()
    budget = 600
    auto_invariants, merge_ifs = False, True
    sym_consts = ("dt", "mult_factor_RRR", "z", "minimum_snowfall")
    cases = tuple({**p, **LONGWAVE[i % 4], "densification_method": m, "restart": r, "full_field": i % 2 == 0}
                  for i, (p, m, r) in enumerate(
                      (p, m, r) for p in PRECIP for m, r in (("Boone", False), ("constant", True))))
    note = "cosipy_core's callees by contract: arbitrary results, arbitrary new column state"
    search_seconds = 10

    def const_requires(self, o):
        c = o.const
        return [("dt > 0", o.pos(c("dt"))), ("mult_factor_RRR > 0", o.pos(c("mult_factor_RRR"))), ("z > 0", o.pos(c("z"))),
                ("minimum_snowfall > 0", o.pos(c("minimum_snowfall")))]

    # ------------------------------------------------------------ symbolic side
    def case(self, o):
        return {k: o.const(k) for k in ("precip", "TP", "lw", "forceN", "restart", "full_field")}

    def module_globals(self, o, a):
        if not o.symbolic:
            return {}
        from pyvc import coremodel
        self.m = coremodel.Model(self, o, self.case(o))
        return self.m.globals()

    def stubs(self, o, ctx):
        return {}

    def sym_call_args(self, grid, a):
        return self.m.call_args()

    def on_raise(self, o, old, a, kind):
        # too many layers for the output arrays, or no precipitation input
        return self.m.may_raise(kind) if o.symbolic else self._may_raise(kind)

    def _may_raise(self, kind):
        return kind == "ValueError"

    def clauses(self, o, s):
        """[(name, formula)] about one step: s gives results, ghosts and inputs at that step"""
        return []

    def invgen(self, o, L):
        return self.m.invariants(L, self.clauses)

    def ensures(self, o, old, new, a, res):
        if o.symbolic:
            return self.m.post(res, self.clauses) + self.final(o, self.m.final(res))
        out = []
        for s in self._steps:
            out += self.clauses(o, s)
        return out + self.final(o, self._final)

    def final(self, o, s):
        return []

    # ------------------------------------------------------------ concrete side
    def gen(self, rng):
        from concrete import core_run
        return core_run.gen(rng, self.cases)

    def invoke(self, env, inp):
        from concrete import core_run
        self._steps, self._final, exc = core_run.run(env, inp)
        return None, exc, None, None, None


class StepBalance(_Core):
    """C15: mass and energy terms of every step"""
    prop = "C15"

    def clauses(self, o, s):
        c = o.const
        rw, dt = c("water_density"), c("dt")
        thr = c("minimum_snowfall")
        out = [("mass balance is surface plus internal", o.eq(s["MB"], s["surfMB"] + s["intMB"])),
               ("surface mass balance is snowfall - melt + sublimation + deposition + evaporation",
                o.eq(s["surfMB"], s["SNOWFALL"] - s["surfM"] + s["SUBLIMATION"] + s["DEPOSITION"] + s["EVAPORATION"])),
               ("internal mass balance is refreezing - subsurface melt", o.eq(s["intMB"], s["REFREEZE"] - s["subM"])),
               ("melt energy is the positive part of the energy balance",
                o.eq(s["ME"], o.max(o.num(0), s.sw_residual() + s["LWin"] + s["LWout"] + s["B"] + s["QRR"] + s["H"] + s["LE"]))),
               ("surface melt is melt energy times dt over the latent heat",
                o.eq(s["surfM"] * (1000 * c("lat_heat_melting")), s["ME"] * dt))]
        LE, zero = s["LE"], o.num(0)
        ls, lv = rw * c("lat_heat_sublimation"), rw * c("lat_heat_vaporize")
        cold = s["TS"] < c("zero_temperature")
        for nm, lat, sign, when in (("SUBLIMATION", ls, -1, True), ("DEPOSITION", ls, 1, True), ("EVAPORATION", lv, -1, False), ("CONDENSATION", lv, 1, False)):
            part = o.min(LE, zero) if sign < 0 else o.max(LE, zero)
            out.append((f"{nm.lower()} is its share of the latent heat flux",
                        o.and_(o.implies(cold if when else o.not_(cold), o.eq(s[nm] * lat, part * dt)),
                               o.implies(o.not_(cold) if when else cold, o.eq(s[nm], zero)))))
            out.append((f"{nm.lower()} has its sign", o.le(s[nm], zero) if sign < 0 else o.ge(s[nm], zero)))
        # precipitation
        rain, snow = s["RAIN"], s["SNOWFALL"]
        out += [("rain is never negative", o.ge(rain, zero)), ("snowfall is never negative", o.ge(snow, zero))]
        rho = fresh_density(o, c("densification_method"), c("constant_density"), s.T2, s.U2)
        snowthr = thr * rho / rw if not o.symbolic else thr * o.div(rho, rw)
        if s.total is None:
            given = s.snow_in * o.div(rho, rw)
            out.append(("snowfall is the supplied one unless below the threshold",
                        o.or_(o.and_(o.eq(snow, given), o.ge(given, snowthr)), o.and_(o.eq(snow, zero), o.le(given, snowthr)))))
            out.append(("no rain without total precipitation", o.eq(rain, zero)))
        else:
            P = s.total
            ok = o.sle(zero, P)
            if s.snow_in is not None:
                ok = o.and_(ok, o.sle(zero, s.snow_in), o.sle(s.snow_in * o.div(rho, rw) * 1000, P))
            lost = P - rain - 1000 * snow
            gap = o.num(0) + o.ite(o.eq(rain, zero), 1000 * snowthr, zero) + o.ite(o.eq(snow, zero), 1000 * snowthr, zero)
            out.append(("snowfall plus rain is the supplied precipitation except amounts below the threshold",
                        o.implies(ok, o.and_(o.ge(lost, zero), o.le(lost, gap)))))
            if s.snow_in is not None:
                given = s.snow_in * o.div(rho, rw)
                out.append(("snowfall is the supplied one unless below the threshold",
                            o.or_(o.and_(o.eq(snow, given), o.ge(given, snowthr)), o.and_(o.eq(snow, zero), o.le(given, snowthr)))))
        # hand-over between the parts of a step
        out.append(("melt less sublimation and deposition leaves the column", o.eq(s.g("removed"), s["surfM"] - s["SUBLIMATION"] - s["DEPOSITION"])))
        out.append(("melt, condensation, rain and the water of removed layers percolate",
                    o.eq(s.g("percolating"), s["surfM"] + s["CONDENSATION"] + rain / 1000 + s.g("lwc_removed"))))
        # the surface energy balance is solved with this step's own forcing
        a = lambda nm: s.g("arg_" + nm)
        out += [(f"the surface energy balance is given its own {nm}", o.eq(a(nm), v))
                for nm, v in (("dt", dt), ("z", c("z")), ("z0", s["Z0"]), ("T2", s.T2), ("RH2", s.inp("RH2")), ("PRES", s.inp("PRES")),
                              ("SWnet", s.sw_residual()), ("U2", s.U2), ("RAIN", rain), ("SLOPE", s.slope()))]
        out.append(("the surface energy balance is given its own longwave input", s.lw_args()))
        return out


class StepOutputs(_Core):
    """C16: every position of the result holds its own quantity, for every step"""
    prop = "C16"

    def clauses(self, o, s):
        out = []
        for nm in ("TS", "LWin", "LWout", "H", "LE", "B", "QRR", "MOL"):
            out.append((f"{nm} is what the surface energy balance returned", o.eq(s[nm], s.g("ust_" + nm))))
        for nm, g in (("ALBEDO", "alpha"), ("Z0", "z0"), ("Q", "runoff"), ("REFREEZE", "refrozen")):
            out.append((f"{nm} is the result of its own module", o.eq(s[nm], s.g(g))))
        out.append(("subM is the result of its own module", o.eq(s["subM"], s.subsurface_melt())))
        for nm, g in (("SNOWHEIGHT", "get_total_snowheight"), ("TOTALHEIGHT", "get_total_height"), ("NLAYERS", "get_number_layers")):
            out.append((f"{nm} describes the column at the end of the step", o.eq(s[nm], s.at_end(g))))
        for nm in PROPS:
            out.append((f"{nm} describes the column at the end of the step", o.eq(s[nm], s.at_end(nm))))
        if s.full_field:
            for nm, g in PROFILES.items():
                out.append((f"{nm} is its own profile at the end of the step", s.profile_is(nm, g)))
        return out

    def final(self, o, s):
        return [("the cell's own indices are returned", s.indices_own())]


class SavedState(_Core):
    """C17: the saved state describes the column at the end of the run"""
    prop = "C17"

    def clauses(self, o, s):
        return [(f"{nm} describes the column at the end of the step", o.eq(s[nm], s.at_end(nm))) for nm in PROPS]

    def final(self, o, s):
        out = [(f"saved {nm} is that of the final column", s.saved_scalar(nm, g)) for nm, g in RESTART_SCALARS.items()]
        out += [(f"saved {nm} is the profile of the final column", s.saved_profile(nm, g)) for nm, g in RESTART_PROFILES.items()]
        out.append(("a restart state is loaded exactly when one is given", s.started_right()))
        return out
