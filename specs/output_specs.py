"""C16, C17: from the cells' results to the output and restart datasets (COSIPY.py, cosipy/cpkernel/io.py)."""
from .base import *
from . import core_specs as cs

MAIN, IO = "COSIPY", "cosipy.cpkernel.io"
# the output variables of the documented configuration, by group
ATM = ("RAIN", "SNOWFALL", "LWin", "LWout", "H", "LE", "B", "QRR", "Z0", "ALBEDO", "TS")
INTERNAL = ("ME", "MB", "surfMB", "intMB", "EVAPORATION", "SUBLIMATION", "CONDENSATION", "DEPOSITION", "surfM", "subM", "Q",
            "REFREEZE", "SNOWHEIGHT", "TOTALHEIGHT", "LAYERS", "MOL")
FULL = ("HEIGHT", "RHO", "T", "LWC", "CC", "POROSITY", "ICE_FRACTION", "IRREDUCIBLE_WATER", "REFREEZE")
POSITION = {"LAYERS": "NLAYERS"}
ALL_OUT = set(ATM) | set(INTERNAL) | {"LAYER_" + f for f in FULL}
CODE = {nm: i + 1 for i, nm in enumerate(list(cs.RESULT) + ["RESTARTIN"] + ["R_" + n for n in list(cs.RESTART_SCALARS) + list(cs.RESTART_PROFILES)])}


class GridRun(Spec):
    """C16, end to end on small domains"""
    prop, module, qual, bounded_only, has_grid = "C16", MAIN, "run_cosipy", True, False
    note = "run_cosipy and IOClass executed on domains of at most 4 x 4 cells with a stand-in client and model"
    search_seconds = 20

    def gen(self, rng):
        from concrete import grid_run
        return grid_run.gen(rng)

    def check_concrete(self, get_env, inp):
        from concrete import grid_run
        return grid_run.check(get_env, inp)


class _Out(Spec):
    prop, module, has_grid, functionals = "C16", IO, False, ()
    auto_invariants = False
    budget = 120
    search_seconds = 0

    def gen(self, rng):
        return None          # executed end to end by GridRun

    def sym_call_args(self, grid, a):
        return self.m.call_args()

    def module_globals(self, o, a):
        if not o.symbolic:
            return {}
        from pyvc import outmodel
        self.m = self.model(outmodel, o)
        return self.m.globals() if hasattr(self.m, "globals") else {}

    def ensures(self, o, old, new, a, res):
        return self.m.post()


class StoreAtm(_Out):
    """set_*_attribute: for every variable name, a selected variable's value goes to [:, y, x] of its own array and nowhere else"""
    qual, group = "IOClass.set_atm_attribute", "atm"

    def model(self, mod, o):
        return mod.StoreModel(self, o, self.group)


class StoreInternal(StoreAtm):
    qual, group = "IOClass.set_internal_attribute", "internal"


class StoreLayers(StoreAtm):
    qual, group = "IOClass.set_full_field_attribute", "full"


class _Arrays(_Out):
    cases = ({"full_field": True}, {"full_field": False})
    cls = None

    def model(self, mod, o):
        return getattr(mod, self.cls)(self, o, o.const("full_field"))


class CreateArrays(_Arrays):
    """every selected variable, in any list of names, starts with its own array that is missing everywhere"""
    qual, cls = "IOClass.create_global_result_arrays", "CreateModel"


class WriteArrays(_Arrays):
    """every selected variable is written under its own name from its own array"""
    qual, cls = "IOClass.write_results_to_file", "WriteModel"


class CreateRestartArrays(_Arrays):
    qual, cls, prop, cases = "IOClass.create_global_restart_arrays", "CreateRestart", "C17", ({"full_field": False},)


class WriteRestartArrays(_Arrays):
    qual, cls, prop, cases = "IOClass.write_restart_to_file", "WriteRestart", "C17", ({"full_field": False},)


class RunGridProof(_Out):
    """run_cosipy: every glacier cell once with its own forcing, every result to its own variable and cell"""
    module, qual = MAIN, "run_cosipy"
    cases = ({"WRF": False, "restart": False, "full_field": True}, {"WRF": False, "restart": True, "full_field": False},
             {"WRF": True, "restart": False, "full_field": False}, {"WRF": True, "restart": True, "full_field": True})

    def model(self, mod, o):
        return mod.RunModel(self, o, {k: o.const(k) for k in ("WRF", "restart", "full_field")})
